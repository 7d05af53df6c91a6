"""Meaning of the standard-library and third-party operations the crate calls."""
from . import terms as t
from .terms import mk, Int, ZERO, ONE, TRUE, FALSE, UNIT, some, NONE, ok, err
from . import engine as E

EX = {}     # exact path -> model
SUF = []    # (predicate, model)


def m(*names):
    def d(f):
        for n in names:
            EX[n] = f
        return f

    return d


def lookup(c):
    fn = c.callee.get("fn") or ""
    res = c.callee.get("res") or ""
    f = EX.get(res) or EX.get(fn)
    if f is not None:
        return f
    f = METHOD.get((c.callee.get("trait"), c.callee.get("name")))
    if f is not None:
        return f
    if fn.startswith("core::num::<impl ") or fn.startswith("std::num::<impl "):
        return num
    if "::<impl [T]>::" in fn:
        return SLICE.get(fn.rsplit("::", 1)[1])
    if "::<impl str>::" in fn:
        return STR.get(fn.rsplit("::", 1)[1])
    if fn.startswith("std::vec::Vec::<"):
        return VEC.get(fn.rsplit("::", 1)[1])
    if fn.startswith("std::string::String::"):
        return STRING.get(fn.rsplit("::", 1)[1])
    if fn.startswith("hashbrown::HashMap::<") or fn.startswith("std::collections::HashMap::<"):
        return MAP.get(fn.rsplit("::", 1)[1])
    if fn.startswith("std::cell::Cell::<"):
        return CELL.get(fn.rsplit("::", 1)[1])
    if fn.startswith("std::sync::RwLock::<") or fn.startswith("std::sync::Mutex::<"):
        return LOCK.get(fn.rsplit("::", 1)[1])
    if fn.startswith("std::sync::Arc::<") or fn.startswith("std::rc::Rc::<") or fn.startswith("std::boxed::Box::<"):
        return ARC.get(fn.rsplit("::", 1)[1])
    if fn.startswith("std::sync::Weak::<"):
        return WEAK.get(fn.rsplit("::", 1)[1])
    return None


METHOD = {}
SLICE = {}
STR = {}
VEC = {}
STRING = {}
MAP = {}
CELL = {}
LOCK = {}
ARC = {}
WEAK = {}


def mm(trait, *names):
    def d(f):
        for n in names:
            METHOD[(trait, n)] = f
        return f

    return d


def reg(tab, *names):
    def d(f):
        for n in names:
            tab[n] = f
        return f

    return d


# ------------------------------------------------------------------ integers
def num(c):
    fn = c.callee["fn"]
    name = fn.rsplit("::", 1)[1]
    ty = fn.split("<impl ", 1)[1].split(">", 1)[0]
    a = c.args
    if ty not in t.INTTY:
        return None
    lo, hi = t.INTTY[ty]
    bits = t.BITS[ty]
    OPS = {"add": t.add, "sub": t.sub, "mul": t.mul}
    if name.startswith("wrapping_") and name[9:] in OPS:
        return c.ret(c.st.wrap(OPS[name[9:]](a[0], a[1]), ty))
    if name == "wrapping_neg":
        return c.ret(c.st.wrap(t.mulc(a[0], -1), ty))
    if name.startswith("checked_") and name[8:] in OPS:
        v = OPS[name[8:]](a[0], a[1])
        return choose(c, E.or_range(v, lo, hi), lambda: NONE, lambda: some(v))
    if name.startswith("saturating_") and name[11:] in OPS:
        v = OPS[name[11:]](a[0], a[1])
        l, h = c.st.rng(v)
        if lo <= l and h <= hi:
            return c.ret(v)
        if bits < 32:
            r = v if lo <= l else minmax(c.st, "max", v, Int(lo))
            return c.ret(r if h <= hi else minmax(c.st, "min", r, Int(hi)))
        res = []
        for cond, val in ((t.lt(v, Int(lo)), Int(lo)), (t.lt(Int(hi), v), Int(hi)), (t.not_(E.or_range(v, lo, hi)), v)):
            for s in c.I.assume_all(c.st.fork(), cond, True):
                res.append(("ret", s, val))
        return res
    if name.startswith("overflowing_") and name[12:] in OPS:
        v = OPS[name[12:]](a[0], a[1])
        return c.ret(t.tuple_(t.wrap(v, ty), E.or_range(v, lo, hi)))
    if name in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        n = bits // 8
        seq = a[0]
        if name == "from_be_bytes":
            return c.ret(t.settype(from_bytes(c.I, c.st, seq, n, ty, True), ty))
        return c.ret(from_bytes(c.I, c.st, seq, n, ty, False))
    if name in ("to_le_bytes", "to_ne_bytes"):
        return c.ret(to_bytes(a[0], bits // 8))
    if name == "to_be_bytes":
        b = to_bytes(a[0], bits // 8)
        return c.ret(t.array(tuple(reversed(b.a[1]))))
    if name == "div_ceil":
        return c.ret(t.div(t.add(a[0], t.sub(a[1], ONE)), a[1])) if a[1].op == "int" else c.ret(t.settype(mk("divceil", a[0], a[1]), ty))
    if name in ("min", "max"):
        return c.ret(t.settype(minmax(c.st, name, a[0], a[1]), ty))
    if name in ("rotate_left", "rotate_right") and ty[0] == "i":
        n = a[1] if name == "rotate_left" else t.mulc(a[1], -1)
        u = t.wrap(a[0], "u%d" % bits)
        r = rotl(u, n.a[0] % bits, bits) if n.op == "int" else mk("rotl", u, n, bits)
        if r.op == "rotl":
            t.settype(r, "u%d" % bits)
        return c.ret(t.wrap(r, ty))
    if name == "rotate_left":
        if a[1].op == "int":
            return c.ret(t.settype(rotl(a[0], a[1].a[0] % bits, bits), ty))
        return c.ret(t.settype(mk("rotl", a[0], a[1], bits), ty))
    if name == "rotate_right":
        if a[1].op == "int":
            return c.ret(t.settype(rotl(a[0], (-a[1].a[0]) % bits, bits), ty))
        return c.ret(t.settype(mk("rotl", a[0], t.mulc(a[1], -1), bits), ty))
    if name in ("wrapping_shl", "wrapping_shr") and a[1].op == "int":
        k = Int(a[1].a[0] % bits)
        return c.ret(t.settype(t.shl(a[0], k, ty) if name.endswith("shl") else t.shr(a[0], k), ty))
    if name == "unsigned_abs":
        d = c.st.decide(t.lt(a[0], ZERO))
        if d is not None:
            return c.ret(t.mulc(a[0], -1) if d else a[0])
        res = []
        for cond, v in ((t.lt(a[0], ZERO), t.mulc(a[0], -1)), (t.le(ZERO, a[0]), a[0])):
            for s in c.I.assume_all(c.st.fork(), cond, True):
                res.append(("ret", s, v))
        return res
    if name == "is_negative":
        return c.ret(t.lt(a[0], ZERO))
    if name == "is_positive":
        return c.ret(t.lt(ZERO, a[0]))
    if name == "swap_bytes":
        b = to_bytes(a[0], bits // 8)
        return c.ret(from_bytes(c.I, c.st, t.array(tuple(reversed(b.a[1]))), bits // 8, ty, False))
    if name == "pow" and a[1].op == "int" and a[1].a[0] <= 8:
        v = ONE
        for _ in range(a[1].a[0]):
            v = t.mul(v, a[0])
        return c.ret(t.wrap(v, ty))
    return c.ret(t.settype(mk("call", fn, tuple(a)), ty if name not in ("count_ones", "leading_zeros", "trailing_zeros") else "u32"))


def rotl(x, n, bits):
    if n == 0:
        return x
    if x.op == "int":
        v = x.a[0]
        return Int(((v << n) | (v >> (bits - n))) & ((1 << bits) - 1))
    return mk("rotl", x, Int(n), bits)


def minmax(st, name, a, b):
    d = st.decide(t.lt(a, b))
    d2 = st.decide(t.le(a, b))
    if d or d2:
        return a if name == "min" else b
    if d is False:
        return b if name == "min" else a
    x, y = sorted((a, b), key=lambda z: z.id)
    return mk(name, x, y)


def from_bytes(I, st, seq, n, ty, be):
    """integer assembled from n bytes of a sequence value"""
    bs = [I.elem(st, seq, Int(i)) for i in range(n)]
    if be:
        bs.reverse()
    for b in bs:
        t.settype(b, "u8")
    signed = ty[0] == "i"
    # consecutive bytes of one sequence
    b0 = bs[0]
    if b0.op == "elem" and not be:
        if all(b.op == "elem" and b.a[0] is b0.a[0] and t.sub(b.a[1], b0.a[1]) is Int(i) for i, b in enumerate(bs)):
            return lev(n, signed, b0.a[0], b0.a[1])
    # bytes of one integer
    if n == 1 and not signed:
        return b0
    v = ZERO
    for i, b in enumerate(bs):
        v = t.add(v, t.mulc(b, 1 << (8 * i)))
    o = unbytes(bs)
    if o is not None:
        return t.wrap(o, ty)
    return t.wrap(v, ty)


def lev(n, signed, seq, pos):
    if n == 1 and not signed:
        return t.settype(mk("elem", seq, pos), "u8")
    if n == 1:
        return t.wrap(t.settype(mk("elem", seq, pos), "u8"), "i8")
    return mk("le", n, signed, seq, pos)


def to_bytes(x, n):
    """little-endian bytes"""
    bs = []
    if x.op == "le" and x.a[0] == n:
        return t.array([t.settype(mk("elem", x.a[2], t.add(x.a[3], Int(i))), "u8") for i in range(n)])
    for i in range(n):
        if t.rng(x)[0] >= 0:
            bs.append(t.wrap(t.shr(x, Int(8 * i)), "u8"))
        elif x.op == "int":
            bs.append(Int((x.a[0] >> (8 * i)) & 0xFF))
        else:
            u = t.wrap(x, "u%d" % (8 * n))
            bs.append(t.wrap(t.shr(u, Int(8 * i)), "u8"))
    return t.array(bs)


def unbytes(bs):
    """x when bs are exactly the little-endian bytes of x"""
    n = len(bs)
    b0 = bs[0]
    x = None
    if b0.op == "wrap" and b0.a[1] == "u8":
        x = b0.a[0]
    elif b0.op == "elem":
        return None
    if x is None:
        return None
    for i, b in enumerate(bs):
        if t.wrap(t.shr(x, Int(8 * i)), "u8") is not b:
            return None
    return x


def choose(c, cond, a, b):
    """fork on cond: a() if true else b()"""
    res = []
    for s in c.I.assume_all(c.st.fork(), cond, True):
        res.append(("ret", s, a()))
    for s in c.I.assume_all(c.st, cond, False):
        res.append(("ret", s, b()))
    return res


def choose_panic(c, cond, a, what):
    """a() when cond, panic otherwise"""
    d = c.st.decide(cond)
    if d is True:
        return [("ret", c.st, a())]
    res = []
    if c.I.keep_panics:
        for s in c.I.assume_all(c.st.fork(), cond, False):
            res.append(("panic", s, (("lib", what, c.span), tuple(b.path for b in c.fr.stack()))))
    for s in c.I.assume_all(c.st, cond, True):
        res.append(("ret", s, a()))
    return res


# ------------------------------------------------------------------ identity-like
def ident(c):
    return c.ret(c.args[0])


@mm("std::convert::AsRef", "as_ref")
def as_ref(c):
    s = c.self_ty
    if c.callee.get("inst") is not None:
        return None
    tgt = c.tyarg(1)
    if s in ("memmap2::Mmap", "memmap2::MmapMut", "[u8]") or s.startswith("std::vec::Vec<") or s.startswith("[u8;"):
        return c.ret(c.args[0])
    if s in ("str", "std::string::String") and tgt and tgt["s"] in ("[u8]", "str", "std::path::Path", "std::ffi::OsStr"):
        return c.ret(c.args[0])
    if s in ("std::path::PathBuf", "std::path::Path", "std::ffi::OsStr", "std::ffi::OsString"):
        return c.ret(c.args[0])
    if s.startswith("std::sync::Arc<") or s.startswith("std::boxed::Box<"):
        return c.ret(c.load(c.args[0]))
    return None


@mm("std::ops::Deref", "deref")
@mm("std::ops::DerefMut", "deref_mut")
def deref(c):
    if c.callee.get("inst") is not None and c.callee.get("rlocal"):
        return None
    s = c.self_ty
    if s.startswith(("std::vec::Vec<", "std::string::String", "memmap2::Mmap", "std::path::PathBuf", "std::ffi::OsString", "std::borrow::Cow<")):
        return c.ret(c.args[0])
    if s.startswith(("std::sync::Arc<", "std::boxed::Box<", "std::rc::Rc<")):
        v = c.load(c.args[0])
        return c.ret(v)
    if s.startswith(("std::sync::RwLockReadGuard<", "std::sync::RwLockWriteGuard<", "std::sync::MutexGuard<")):
        v = c.load(c.args[0])
        if v.op == "guard":
            return c.ret(v.a[1])
        return c.ret(mk("guarded", v))
    if s.startswith("std::sync::LazyLock<"):
        return c.ret(mk("lazy", c.I.content(c.st, c.args[0])) if c.args[0].op != "static" else mk("lazy", c.args[0]))
    return None


for n in ("std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::hint::must_use", "std::mem::ManuallyDrop::<T>::new",
          "std::boxed::box_new", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::ops::Deref::deref_pin"):
    EX[n] = ident


@m("std::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(c):
    v = c.args[0]
    r, p = c.I.target(v)
    x = c.I.load(c.st, r, p)
    # Box<MaybeUninit<[T;N]>> written through its fields
    while x.op == "upd" and len(x.a[1]) == 1:
        x = x.a[1][0][1]
    while x.op == "agg" and x.a[0][0] == "adt" and len(x.a[1]) == 1:
        x = x.a[1][0]
    return c.ret(x)


@mm("std::clone::Clone", "clone")
def clone(c):
    if c.callee.get("inst") is not None and c.callee.get("rlocal"):
        return None
    return c.ret(c.load(c.args[0]))


@mm("std::borrow::ToOwned", "to_owned")
def to_owned(c):
    return c.ret(c.load(c.args[0]))


@mm("std::default::Default", "default")
def default(c):
    if c.callee.get("inst") is not None:
        return None
    s = c.self_ty
    if s in t.INTTY:
        return c.ret(ZERO)
    if s in ("f32", "f64"):
        return c.ret(mk("float", "0"))
    if s.startswith("std::vec::Vec<") or s == "std::string::String":
        return c.ret(mk("empty"))
    if s == "&str":
        return c.ret(mk("str", ""))
    if s.startswith("std::option::Option<"):
        return c.ret(NONE)
    if s.startswith("hashbrown::HashMap<"):
        return c.ret(mk("mapempty"))
    if s.startswith("["):
        k = c.tyarg(0)
        e = c.I.prog.types[k["of"]]["s"]
        n = k.get("len")
        if e in t.INTTY and isinstance(n, int) and n <= 64:
            return c.ret(t.array([ZERO] * n))
    k = c.tyarg(0)
    if k and k["k"] == "adt":
        if k["def"] in ("std::sync::Arc", "std::boxed::Box", "std::sync::RwLock", "std::sync::Weak"):
            return c.ret(mk("call", "default", (mk("unk", s),)))
    if k and k["k"] == "tuple":
        return c.ret(t.tuple_(*[mk("call", "default", (mk("unk", c.I.prog.ts(x)),)) for x in k["of"]]))
    return c.ret(mk("call", "default", (mk("unk", s),)))


@mm("std::convert::From", "from")
def from_(c):
    if c.callee.get("inst") is not None:
        return None
    s = c.self_ty
    src = c.tyarg(1)["s"] if c.tyarg(1) else ""
    if s in t.INTTY and src in t.INTTY:
        return c.ret(c.args[0])
    if s == "std::string::String" and src in ("&str", "&std::string::String", "std::boxed::Box<str>"):
        return c.ret(c.load(c.args[0]))
    if s == "std::string::String" and src == "char":
        return c.ret(mk("push", mk("empty"), c.args[0]))
    if s.startswith("std::sync::Arc<str>") or s.startswith("std::boxed::Box<str>"):
        if src == "&str":
            return c.ret(alloc(c, c.load(c.args[0])))
        return c.ret(alloc(c, c.args[0]))
    if s.startswith("std::vec::Vec<") and src.startswith("["):
        return c.ret(c.args[0])
    if s.startswith("std::vec::Vec<") and src.startswith("&"):
        return c.ret(c.load(c.args[0]))
    if s.startswith("std::sync::Arc<") or s.startswith("std::boxed::Box<"):
        return c.ret(alloc(c, c.args[0]))
    if s in ("f64", "f32") and src in ("f32",):
        return c.ret(mk("f2f", c.args[0], src, s))
    if s in ("f64", "f32"):
        return c.ret(mk("i2f", c.args[0], s))
    if "GenericArray" in s:
        return c.ret(c.args[0])
    if s.startswith("std::path::PathBuf"):
        return c.ret(c.load(c.args[0]) if src.startswith("&") else c.args[0])
    return c.ret(mk("call", "From::from", (mk("unk", s), mk("unk", src), c.I.content(c.st, c.args[0]))))


@mm("std::convert::Into", "into")
def into_(c):
    return None if c.callee.get("inst") is not None else c.ret(mk("call", "Into::into", (mk("unk", c.self_ty), c.I.content(c.st, c.args[0]))))


@mm("std::convert::TryFrom", "try_from")
@mm("std::convert::TryInto", "try_into")
def try_from(c):
    if c.callee.get("inst") is not None:
        return None
    tr = c.callee.get("trait")
    a, b = c.tyarg(0), c.tyarg(1)
    src, dst = (b, a) if tr.endswith("TryFrom") else (a, b)
    if src is None or dst is None:
        return None
    if src["s"] in t.INTTY and dst["s"] in t.INTTY:
        lo, hi = t.INTTY[dst["s"]]
        v = c.args[0]
        return choose(c, E.or_range(v, lo, hi), lambda: err(mk("call", "TryFromIntError", (v,))), lambda: ok(v))
    if dst["k"] == "array" and src["k"] == "ref" and isinstance(dst.get("len"), int):
        v = c.load(c.args[0])
        n = dst["len"]
        cond = t.eq(c.I.seqlen(v), Int(n))
        I = c.I
        return choose(c, cond, lambda: ok(arr_of(I, c.st, v, n)), lambda: err(mk("call", "TryFromSliceError", ())))
    if dst["k"] == "ref" and src["k"] == "ref":
        k = c.I.prog.types[dst["to"]]
        if k["k"] == "array" and isinstance(k.get("len"), int):
            v = c.load(c.args[0])
            p = c.args[0]
            return choose(c, t.eq(c.I.seqlen(v), Int(k["len"])), lambda: ok(p), lambda: err(mk("call", "TryFromSliceError", ())))
    return None


def arr_of(I, st, v, n):
    if n > 64:
        return v
    r = [I.elem(st, v, Int(i)) for i in range(n)]
    for x in r:
        t.settype(x, "u8") if v.op in ("sub", "val") or True and x.op == "elem" and x.ty is None and False else None
    return t.array(r)


# ------------------------------------------------------------------ comparison
@mm("std::cmp::PartialEq", "eq", "ne")
def peq(c):
    if c.callee.get("inst") is not None:
        return None
    a, b = c.args
    x, y = deepload(c, a), deepload(c, b)
    r = seq_eq(c, x, y)
    if c.callee["name"] == "ne":
        r = t.not_(r)
    return c.ret(r)


def deepload(c, p):
    hops = 0
    while hops < 6:
        if p.op in ("ref", "cref", "guard", "subptr", "str") or (hops == 0):
            p = c.load(p)
        elif p.op == "heapref":
            p = c.load(p)
        else:
            break
        hops += 1
    return p


def strip(x):
    """sequence value behind pointers already loaded"""
    return x


def seq_eq(c, x, y):
    if x is y:
        return TRUE
    I, st = c.I, c.st
    if x.op == "val" and x.a[0].op == "bytes":
        x = x.a[0]
    if y.op == "val" and y.a[0].op == "bytes":
        y = y.a[0]
    if x.op in ("empty",):
        x = mk("bytes", "")
    if y.op in ("empty",):
        y = mk("bytes", "")
    if x.op == "bytes" and y.op == "bytes":
        return FALSE
    if x.op == "agg" and y.op == "agg" and x.a[0][0] == "array" and y.a[0][0] == "array":
        if len(x.a[1]) != len(y.a[1]):
            return FALSE
        r = TRUE
        for p, q in zip(x.a[1], y.a[1]):
            r = t.and_(r, t.eq(p, q))
        return r
    for p, q in ((x, y), (y, x)):
        if p.op == "bytes" and p.a[0] == "":
            return t.eq(I.seqlen(q), ZERO)
    for p, q in ((x, y), (y, x)):
        if p.op == "agg" and p.a[0][0] == "array" and q.op in ("sub", "val", "elem", "fld"):
            n = len(p.a[1])
            if st.decide(t.eq(I.seqlen(q), Int(n))) and n <= 16:
                r = TRUE
                for i in range(n):
                    r = t.and_(r, t.eq(p.a[1][i], I.elem(st, q, Int(i))))
                return r
    p, q = sorted((x, y), key=lambda z: z.id)
    r = mk("seqeq", p, q)
    d = st.decide(r)
    if d is not None:
        return TRUE if d else FALSE
    return r


@mm("std::cmp::Ord", "cmp", "max", "min")
@mm("std::cmp::PartialOrd", "partial_cmp", "lt", "le", "gt", "ge")
def ordm(c):
    n = c.callee["name"]
    s = c.self_ty
    if s in t.INTTY:
        if n in ("max", "min"):
            return c.ret(t.settype(minmax(c.st, n, c.args[0], c.args[1]), s))
        a, b = c.load(c.args[0]), c.load(c.args[1])
        f = {"lt": lambda: t.lt(a, b), "le": lambda: t.le(a, b), "gt": lambda: t.lt(b, a), "ge": lambda: t.le(b, a)}.get(n)
        if f:
            return c.ret(f())
    return None


@m("std::cmp::min", "std::cmp::max")
def cmpmin(c):
    k = c.tyarg(0)
    if k and k["s"] in t.INTTY:
        return c.ret(t.settype(minmax(c.st, c.callee["name"], c.args[0], c.args[1]), k["s"]))
    return None


@m("std::cmp::impls::<impl std::cmp::Ord for usize>::min")
def ordmin(c):
    return c.ret(t.settype(minmax(c.st, "min", c.args[0], c.args[1]), "usize"))


# ------------------------------------------------------------------ cells, locks, arcs
reg(CELL, "new")(lambda c: c.ret(t.adt("std::cell::Cell", 0, "Cell", (c.args[0],))))


@reg(CELL, "get")
def cell_get(c):
    v = c.I.proj(c.st, c.load(c.args[0]), ("f", 0))
    return c.ret(v)


@reg(CELL, "set")
def cell_set(c):
    r, p = c.I.target(c.args[0])
    c.I.assign(c.st, c.fr, r, p + (("f", 0),), c.args[1], c.span)
    return c.ret(UNIT)


@reg(CELL, "replace")
def cell_replace(c):
    r, p = c.I.target(c.args[0])
    v = c.I.proj(c.st, c.load(c.args[0]), ("f", 0))
    c.I.assign(c.st, c.fr, r, p + (("f", 0),), c.args[1], c.span)
    return c.ret(v)


@reg(CELL, "take")
def cell_take(c):
    r, p = c.I.target(c.args[0])
    v = c.I.proj(c.st, c.load(c.args[0]), ("f", 0))
    c.I.assign(c.st, c.fr, r, p + (("f", 0),), ZERO, c.span)
    return c.ret(v)


LOCKF = ("f", "lock")


@reg(LOCK, "new")
def lock_new(c):
    return c.ret(t.adt("std::sync::RwLock", 0, "RwLock", (c.args[0],)))


def lock_ptr(c, p):
    r, path = c.I.target(p)
    return c.I.mkref(c.st, r, path + (("f", 0),))


def lockfn(mode, trying):
    def f(c):
        g = mk("guard", "w" if mode else "r", lock_ptr(c, c.args[0]), c.st.cnt.get("guard", 0))
        c.st.cnt["guard"] = c.st.cnt.get("guard", 0) + 1
        if not trying:
            c.st.trace = c.st.trace + (E.Event(("lock", g.a[0], g.a[1]), c.span),)
            return c.ret(ok(g))
        s2 = c.st.fork()
        n = c.st.cnt.get("try", 0)
        c.st.cnt["try"] = s2.cnt["try"] = n + 1
        c.st.trace = c.st.trace + (E.Event(("trylock", g.a[0], g.a[1]), c.span),)
        s2.trace = s2.trace + (E.Event(("trylock-fail", g.a[0], g.a[1]), c.span),)
        return [("ret", c.st, ok(g)), ("ret", s2, err(mk("wouldblock", g.a[1])))]

    return f


LOCK["read"] = lockfn(0, False)
LOCK["write"] = lockfn(1, False)
LOCK["lock"] = lockfn(1, False)
LOCK["try_read"] = lockfn(0, True)
LOCK["try_write"] = lockfn(1, True)


@reg(LOCK, "into_inner")
def lock_into(c):
    return c.ret(ok(c.I.proj(c.st, c.args[0], ("f", 0))))


@reg(LOCK, "get_mut")
def lock_getmut(c):
    return c.ret(ok(lock_ptr(c, c.args[0])))


def alloc(c, v):
    n = c.st.cnt.get("heap", 0)
    c.st.cnt["heap"] = n + 1
    root = mk("heap", n)
    c.st.mem[root] = v
    return mk("ref", root, ())


reg(ARC, "new")(lambda c: c.ret(alloc(c, c.args[0])))
reg(ARC, "new_uninit")(lambda c: c.ret(alloc(c, mk("undef", "box", 0))))


@reg(ARC, "downgrade")
def downgrade(c):
    return c.ret(mk("weak", c.load(c.args[0])))


@reg(ARC, "ptr_eq")
def ptr_eq(c):
    a, b = c.load(c.args[0]), c.load(c.args[1])
    if a is b:
        return c.ret(TRUE)
    x, y = sorted((a, b), key=lambda z: z.id)
    return c.ret(mk("peq", x, y))


@reg(ARC, "into_inner", "unwrap_or_clone")
def arc_into(c):
    return None


reg(WEAK, "new")(lambda c: c.ret(mk("weaknone")))


@reg(WEAK, "upgrade")
def upgrade(c):
    w = c.load(c.args[0])
    if w.op == "weaknone":
        return c.ret(NONE)
    a = w.a[0] if w.op == "weak" else mk("strong", w)
    alive = mk("alive", w)
    alive.ty = "bool"
    return choose(c, t.eq(alive, ONE), lambda: some(a), lambda: NONE)


@m("std::mem::replace")
def mem_replace(c):
    old = c.load(c.args[0])
    c.storep(c.args[0], c.args[1])
    return c.ret(old)


@m("std::mem::take")
def mem_take(c):
    old = c.load(c.args[0])
    k = c.tyarg(0)
    s = k["s"] if k else ""
    if s.startswith("std::vec::Vec<") or s == "std::string::String":
        d = mk("empty")
    elif s.startswith("hashbrown::HashMap<"):
        d = mk("mapempty")
    elif s in t.INTTY:
        d = ZERO
    elif s.startswith("std::option::Option<"):
        d = NONE
    else:
        d = mk("call", "default", (mk("unk", s),))
    c.storep(c.args[0], d)
    return c.ret(old)


@m("std::mem::swap")
def mem_swap(c):
    a, b = c.load(c.args[0]), c.load(c.args[1])
    c.storep(c.args[0], b)
    c.storep(c.args[1], a)
    return c.ret(UNIT)


@m("std::mem::drop")
def mem_drop(c):
    c.I.drop_value(c.st, c.args[0], c.span)
    return c.ret(UNIT)


@m("std::sync::OnceLock::<T>::new")
def once_new(c):
    return c.ret(mk("oncelock"))


# ------------------------------------------------------------------ slices / vectors
def setlen(c):
    return c.ret(c.I.seqlen(c.load(c.args[0])))


for tab in (SLICE, STR, VEC, STRING):
    tab["len"] = setlen
    tab["is_empty"] = lambda c: c.ret(t.eq(c.I.seqlen(c.load(c.args[0])), ZERO))
for tab in (VEC, STRING):
    tab["new"] = lambda c: c.ret(mk("empty"))
    tab["with_capacity"] = lambda c: c.ret(mk("empty"))


def ptr_sub(c, p, a, n):
    r, path = c.I.target(p)
    seq = c.I.load(c.st, r, path)
    if a is ZERO and n is c.I.seqlen(seq):
        return p
    return mk("ref", r, E.addpath(path, ("ss", a, n)))


def ptr_idx(c, p, i):
    r, path = c.I.target(p)
    return mk("ref", r, E.addpath(path, ("i", i)))


def range_of(c, v, tyk, n):
    """(start, len, condition) of indexing by a range value; None if not a range"""
    s = tyk["s"] if tyk else ""
    I, st = c.I, c.st
    f = lambda i: t.settype(I.proj(st, v, ("f", i)), "usize")
    if s.startswith("std::ops::RangeFull"):
        return ZERO, n, TRUE
    if s.startswith("std::ops::RangeFrom<"):
        a = f(0)
        return a, t.sub(n, a), t.le(a, n)
    if s.startswith("std::ops::RangeToInclusive<"):
        b = t.add(f(0), ONE)
        return ZERO, b, t.le(b, n)
    if s.startswith("std::ops::RangeTo<"):
        b = f(0)
        return ZERO, b, t.le(b, n)
    if s.startswith("std::ops::RangeInclusive<"):
        a, b = f(0), t.add(f(1), ONE)
        return a, t.sub(b, a), t.and_(t.le(a, b), t.le(b, n))
    if s.startswith("std::ops::Range<"):
        a, b = f(0), f(1)
        return a, t.sub(b, a), t.and_(t.le(a, b), t.le(b, n))
    return None


@mm("std::ops::Index", "index")
@mm("std::ops::IndexMut", "index_mut")
def index(c):
    if c.callee.get("inst") is not None:
        return None
    s = c.self_ty
    p, i = c.args[0], c.args[1]
    k = c.tyarg(1)
    if s.startswith(("image::Rgb", "image::Luma")):
        r, path = c.I.target(p)
        v = c.I.load(c.st, r, path)
        n = {"image::Rgba": 4, "image::Rgb": 3}.get(s.split("<")[0], 2)
        return choose_panic(c, t.lt(i, Int(n)), lambda: mk("ref", r, path + (("f", 0), ("i", i))), "index")
    seq = c.load(p)
    n = c.I.seqlen(seq)
    rg = range_of(c, i, k, n)
    if rg is not None:
        a, l, cond = rg
        return choose_panic(c, cond, lambda: ptr_sub(c, p, a, l), "slice")
    if k and k["s"] == "usize":
        return choose_panic(c, t.lt(i, n), lambda: ptr_idx(c, p, i), "index")
    if "HashMap" in s:
        return None
    return None


@reg(SLICE, "get", "get_mut")
@reg(STR, "get")
def slice_get(c):
    p, i = c.args[0], c.args[1]
    ks = [x for x in (c.callee.get("args") or []) if isinstance(x, int)]
    k = None
    for x in ks:
        y = c.I.prog.types[x]
        if y["s"].startswith("std::ops::Range") or y["s"] == "usize":
            k = y
    if k is None and c.atys:
        k = c.I.prog.types[c.atys[1]]
    n = c.I.seqlen(c.load(p))
    rg = range_of(c, i, k, n)
    if rg is not None:
        a, l, cond = rg
        return choose(c, cond, lambda: some(ptr_sub(c, p, a, l)), lambda: NONE)
    return choose(c, t.lt(i, n), lambda: some(ptr_idx(c, p, i)), lambda: NONE)


@reg(SLICE, "first", "first_mut")
def first(c):
    p = c.args[0]
    n = c.I.seqlen(c.load(p))
    return choose(c, t.lt(ZERO, n), lambda: some(ptr_idx(c, p, ZERO)), lambda: NONE)


@reg(SLICE, "last", "last_mut")
def last(c):
    p = c.args[0]
    n = c.I.seqlen(c.load(p))
    return choose(c, t.lt(ZERO, n), lambda: some(ptr_idx(c, p, t.sub(n, ONE))), lambda: NONE)


@reg(SLICE, "split_at", "split_at_mut")
@reg(STR, "split_at")
def split_at(c):
    p, i = c.args
    n = c.I.seqlen(c.load(p))
    return choose_panic(c, t.le(i, n), lambda: t.tuple_(ptr_sub(c, p, ZERO, i), ptr_sub(c, p, i, t.sub(n, i))), "split_at")


@reg(SLICE, "to_vec", "into_vec", "to_owned")
@reg(STR, "to_owned", "to_string", "into_string")
def to_vec(c):
    return c.ret(c.load(c.args[0]))


@reg(SLICE, "copy_from_slice", "clone_from_slice")
def copy_from_slice(c):
    d, s = c.args
    a, b = c.I.seqlen(c.load(d)), c.I.seqlen(c.load(s))
    cond = t.eq(a, b)
    res = []
    for k, st, v in choose_panic(c, cond, lambda: UNIT, "copy_from_slice"):
        if k == "ret":
            r, p = c.I.target(s)
            x = c.I.load(st, r, p)
            r, p = c.I.target(d)
            c.I.store(st, r, p, x)
        res.append((k, st, v))
    return res


@reg(SLICE, "fill")
def fill(c):
    n = c.I.seqlen(c.load(c.args[0]))
    k = c.st.known(n)
    c.storep(c.args[0], t.array([c.args[1]] * k) if k is not None and k <= 64 else mk("rep", c.args[1], n))
    return c.ret(UNIT)


@reg(SLICE, "swap")
def swap(c):
    p, i, j = c.args
    n = c.I.seqlen(c.load(p))
    res = []
    for k, st, v in choose_panic(c, t.and_(t.lt(i, n), t.lt(j, n)), lambda: UNIT, "swap"):
        if k == "ret":
            a = c.I.load(st, *c.I.target(ptr_idx(c, p, i)))
            b = c.I.load(st, *c.I.target(ptr_idx(c, p, j)))
            c.I.store(st, *c.I.target(ptr_idx(c, p, i)), b)
            c.I.store(st, *c.I.target(ptr_idx(c, p, j)), a)
        res.append((k, st, v))
    return res


@reg(SLICE, "reverse")
def reverse(c):
    v = c.load(c.args[0])
    k = c.st.known(c.I.seqlen(v))
    if k is not None and k <= 64:
        c.storep(c.args[0], t.array([c.I.elem(c.st, v, Int(k - 1 - i)) for i in range(k)]))
    else:
        c.storep(c.args[0], mk("rev", v))
    return c.ret(UNIT)


@reg(SLICE, "contains", "starts_with", "ends_with")
def sl_contains(c):
    return c.ret(settb(mk("call", "slice::" + c.callee["name"], tuple(c.I.content(c.st, a) for a in c.args))))


def settb(x):
    t.settype(x, "bool")
    return x


for n in ("as_slice", "as_mut_slice", "as_bytes", "as_str", "as_ptr", "as_mut_str", "into_boxed_slice", "into_bytes", "leak", "into_boxed_str"):
    for tab in (VEC, STRING, STR, SLICE):
        tab[n] = ident


@reg(VEC, "push")
@reg(STRING, "push")
def vpush(c):
    v = c.load(c.args[0])
    c.storep(c.args[0], mk("push", v, c.args[1]))
    return c.ret(UNIT)


@reg(VEC, "extend_from_slice", "append")
@reg(STRING, "push_str")
def vextend(c):
    v = c.load(c.args[0])
    x = c.load(c.args[1])
    c.storep(c.args[0], cat(c.I, c.st, v, x))
    if c.callee["name"] == "append":
        c.storep(c.args[1], mk("empty"))
    return c.ret(UNIT)


@reg(STRING, "insert_str", "insert")
def sinsert(c):
    if c.st.simp(c.args[1]) is not ZERO:
        return None
    v = c.load(c.args[0])
    x = c.args[2] if c.callee["name"] == "insert" else c.load(c.args[2])
    if c.callee["name"] == "insert":
        x = mk("push", mk("empty"), x)
    c.storep(c.args[0], mk("cat", x, v))
    return c.ret(UNIT)


@m("core::f64::<impl f64>::from_bits", "core::f32::<impl f32>::from_bits", "std::f64::<impl f64>::from_bits", "std::f32::<impl f32>::from_bits")
def from_bits(c):
    return c.ret(mk("bits", c.args[0], "f32" if "f32" in c.callee["fn"] else "f64"))


@mm("std::ops::Add", "add")
def sadd(c):
    if c.self_ty != "std::string::String":
        return None
    return c.ret(cat(c.I, c.st, c.load(c.args[0]) if c.args[0].op in ("ref", "cref") else c.args[0], c.load(c.args[1])))


@mm("std::ops::AddAssign", "add_assign")
def saddassign(c):
    if c.self_ty != "std::string::String":
        return None
    c.storep(c.args[0], cat(c.I, c.st, c.load(c.args[0]), c.load(c.args[1])))
    return c.ret(UNIT)


def cat(I, st, v, x):
    n = st.known(I.seqlen(x))
    if n is not None and n <= 64 and x.op != "bytes":
        for i in range(n):
            v = mk("push", v, I.elem(st, x, Int(i)))
        return v
    if I.seqlen(v) is ZERO:
        return x
    return mk("cat", v, x)


@reg(VEC, "clear")
@reg(STRING, "clear")
def vclear(c):
    c.storep(c.args[0], mk("empty"))
    return c.ret(UNIT)


@reg(VEC, "truncate")
def vtrunc(c):
    v = c.load(c.args[0])
    n = c.I.seqlen(v)
    p, k = c.args
    d = c.st.decide(t.le(k, n))
    if d is True:
        c.storep(p, c.I.subseq(c.st, v, ZERO, k))
        return c.ret(UNIT)
    res = []
    for s in c.I.assume_all(c.st.fork(), t.lt(k, n), True):
        r, path = c.I.target(p)
        c.I.store(s, r, path, c.I.subseq(s, v, ZERO, k))
        res.append(("ret", s, UNIT))
    for s in c.I.assume_all(c.st, t.lt(k, n), False):
        res.append(("ret", s, UNIT))
    return res


@reg(VEC, "resize")
def vresize(c):
    v = c.load(c.args[0])
    p, k, x = c.args
    n = c.I.seqlen(v)
    if n is ZERO:
        kk = c.st.known(k)
        c.storep(p, t.array([x] * kk) if kk is not None and kk <= 64 else mk("rep", x, k))
        return c.ret(UNIT)
    if c.st.decide(t.le(n, k)):
        c.storep(p, mk("resized", v, k, x))
        return c.ret(UNIT)
    res = []
    for s in c.I.assume_all(c.st.fork(), t.lt(k, n), True):
        r, path = c.I.target(p)
        c.I.store(s, r, path, c.I.subseq(s, v, ZERO, k))
        res.append(("ret", s, UNIT))
    for s in c.I.assume_all(c.st, t.lt(k, n), False):
        r, path = c.I.target(p)
        c.I.store(s, r, path, mk("resized", v, k, x))
        res.append(("ret", s, UNIT))
    return res


def noop(c):
    return c.ret(UNIT)


for n in ("reserve", "reserve_exact", "shrink_to_fit"):
    VEC[n] = noop
    STRING[n] = noop
    MAP[n] = noop


@reg(VEC, "capacity")
def vcap(c):
    x = mk("call", "capacity", (c.load(c.args[0]),))
    return c.ret(t.settype(x, "usize"))


@reg(VEC, "pop")
def vpop(c):
    p = c.args[0]
    v = c.load(p)
    n = c.I.seqlen(v)
    if v.op == "push":
        c.storep(p, v.a[0])
        return c.ret(some(v.a[1]))
    if n is ZERO:
        return c.ret(NONE)
    res = []
    for s in c.I.assume_all(c.st.fork(), t.lt(ZERO, n), True):
        r, path = c.I.target(p)
        c.I.store(s, r, path, c.I.subseq(s, v, ZERO, t.sub(n, ONE)))
        res.append(("ret", s, some(c.I.elem(s, v, t.sub(n, ONE)))))
    for s in c.I.assume_all(c.st, t.lt(ZERO, n), False):
        res.append(("ret", s, NONE))
    return res


@reg(VEC, "drain")
def vdrain(c):
    v = c.load(c.args[0])
    k = c.tyarg(len([x for x in c.callee["args"] if isinstance(x, int)]) - 1)
    n = c.I.seqlen(v)
    rg = range_of(c, c.args[1], k, n)
    if rg and rg[0] is ZERO and rg[1] is n:
        c.storep(c.args[0], mk("empty"))
        return c.ret(mkiter("own", v, n))
    return None


@m("std::vec::from_elem")
def from_elem(c):
    k = c.st.known(c.args[1])
    if k is not None and k <= 64:
        return c.ret(t.array([c.args[0]] * k))
    return c.ret(mk("rep", c.args[0], c.args[1]))


@m("std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat")
def join(c):
    v = c.load(c.args[0])
    if c.callee["name"] == "concat" and v.op == "agg" and v.a[0][0] == "array":
        r = mk("empty")
        for x in v.a[1]:
            r = cat(c.I, c.st, r, c.load(x) if x.op in ("ref", "cref", "str") else x)
        return c.ret(r)
    return c.ret(mk("call", c.callee["name"], tuple(c.I.content(c.st, a) for a in c.args)))


# ------------------------------------------------------------------ scroll
PREAD = {"u8": (1, 0), "i8": (1, 1), "u16": (2, 0), "i16": (2, 1), "u32": (4, 0), "i32": (4, 1), "u64": (8, 0), "i64": (8, 1), "f32": (4, 2), "f64": (8, 2)}


@m("scroll::Pread::pread_with", "scroll::Pread::pread")
def pread(c):
    ty = None
    for x in c.callee["args"]:
        if isinstance(x, int) and c.I.prog.ts(x) in PREAD:
            ty = c.I.prog.ts(x)
    if ty is None:
        # user type: its own TryFromCtx on the tail of the buffer
        tys = [c.I.prog.ts(x) for x in c.callee["args"] if isinstance(x, int)]
        seq = c.load(c.args[0])
        return c.ret(mk("call", "pread:" + str(tys[-1] if tys else "?"), (seq, c.args[1])))
    big = False
    if c.callee["name"] == "pread_with" and len(c.args) > 2:
        e = c.args[2]
        if e.op == "agg" and e.a[0][0] == "adt" and e.a[0][3] == "Big":
            big = True
        elif not (e.op == "agg" and e.a[0][3] == "Little"):
            big = None
    return c.ret_pread(ty, big) if hasattr(c, "ret_pread") else pread_at(c, c.args[0], c.args[1], ty, big)


def pread_at(c, p, pos, ty, big):
    n, sg = PREAD[ty]
    seq = c.load(p)
    L = c.I.seqlen(seq)
    if big is None:
        v = mk("call", "pread?", (seq, pos, mk("unk", ty)))
    elif big and n > 1:
        v = mk("be", n, sg, seq, pos)
    else:
        v = le_read(c.I, c.st, seq, pos, n, sg == 1)
        if sg == 2:
            v = mk("bits", v, ty)
    return choose(c, t.le(t.add(pos, Int(n)), L), lambda: ok(v), lambda: err(mk("call", "scroll-oob", (pos, Int(n), L))))


def le_read(I, st, seq, pos, n, signed):
    base, p = seq, pos
    if seq.op == "sub":
        base, p = seq.a[0], t.add(seq.a[1], pos)
    if base.op in ("agg", "bytes", "bconst", "push", "tab", "iupd", "ssupd", "cat", "resized", "rep"):
        return from_bytes(I, st, t.array([I.elem(st, seq, t.add(pos, Int(i))) for i in range(n)]), n, ("i" if signed else "u") + str(8 * n), False)
    return lev(n, signed, base, p)


# ------------------------------------------------------------------ strings
def purestr(name, ty=None):
    def f(c):
        r = mk("call", name, tuple(c.I.content(c.st, a) for a in c.args))
        if ty:
            t.settype(r, ty)
        return c.ret(r)

    return f


for n, ty in (("contains", "bool"), ("ends_with", "bool"), ("starts_with", "bool"), ("is_ascii", "bool"), ("parse", None), ("split_once", None),
              ("find", None), ("rfind", None), ("strip_prefix", None), ("strip_suffix", None), ("trim", None), ("to_lowercase", None), ("to_ascii_lowercase", None),
              ("trim_end_matches", None), ("trim_start_matches", None), ("eq_ignore_ascii_case", "bool"), ("rsplit_once", None), ("replace", None), ("to_uppercase", None)):
    STR[n] = purestr("str::" + n, ty)

EX["std::str::<impl str>::to_ascii_lowercase"] = purestr("str::to_ascii_lowercase")

for n in ("from_utf8", "from_utf16", "from_utf16_lossy", "from_utf8_lossy", "from_utf8_unchecked"):
    STRING[n] = purestr("String::" + n)


@mm("std::string::ToString", "to_string")
def to_string(c):
    if c.callee.get("inst") is not None and c.callee.get("rlocal"):
        return None
    s = c.self_ty
    v = c.load(c.args[0])
    if s in ("str", "std::string::String") or s.startswith("std::borrow::Cow<"):
        return c.ret(v)
    return c.ret(mk("call", "to_string", (mk("unk", s), c.I.content(c.st, v))))


@reg(STR, "chars", "bytes", "encode_utf16", "char_indices")
def chars(c):
    v = c.load(c.args[0])
    n = c.callee["name"]
    if n == "bytes":
        return c.ret(mkiter("own", v, c.I.seqlen(v)))
    s = mk("seqof", n, v)
    return c.ret(mkiter("own", s, c.I.seqlen(s)))


@reg(STR, "split", "rsplit", "lines", "split_whitespace", "splitn", "split_inclusive", "split_terminator")
def split(c):
    s = mk("seqof", c.callee["name"], tuple(c.I.content(c.st, a) for a in c.args))
    it = mkiter("own", s, c.I.seqlen(s))
    if c.callee["name"] in ("split", "rsplit"):
        c.st.assume(t.lt(ZERO, c.I.seqlen(s)), True)
    return c.ret(it)


# ------------------------------------------------------------------ formatting: opaque text of the arguments
@m("std::fmt::format", "alloc::fmt::format")
def fmt(c):
    return c.ret(mk("call", "format", tuple(c.I.content(c.st, a) for a in c.args)))


@m("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex")
def fmtarg(c):
    return c.ret(mk("call", c.callee["name"], (c.I.content(c.st, c.args[0]),)))


@m("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::new_v1", "std::fmt::Arguments::<'a>::new_const")
def fmtargs(c):
    return c.ret(mk("call", "fmtargs", tuple(c.I.content(c.st, a) for a in c.args)))


# ------------------------------------------------------------------ hash maps
MAP["new"] = lambda c: c.ret(mk("mapempty"))
MAP["with_capacity"] = MAP["new"]


def mapkey(c, k):
    """content of a key given by reference or value"""
    return c.I.content(c.st, keyval(c, k))


def keyval(c, k):
    v = k
    for _ in range(6):
        if v.op in ("ref", "cref", "str", "guard"):
            v = c.load(v)
        elif v.op == "agg" and v.a[0][0] == "adt" and len(v.a[1]) == 1 and v.a[0][1].endswith("WzNodeName"):
            v = v.a[1][0]
        else:
            break
    return v


@reg(MAP, "insert")
def map_insert(c):
    mv = c.load(c.args[0])
    k = keyval(c, c.args[1])
    r, p = c.I.target(c.args[0])
    old = mk("mapold", mv, k)
    c.st.trace = c.st.trace + (E.Event(("insert", c.I.mkref(c.st, r, p), k, c.args[2], c.args[1]), c.span),)
    c.storep(c.args[0], mk("mapins", mv, k, c.args[2]))
    return c.ret(old)


@reg(MAP, "get", "get_mut")
def map_get(c):
    mv = c.load(c.args[0])
    k = keyval(c, c.args[1])
    r, p = c.I.target(c.args[0])
    x = mv
    while x.op == "mapins":
        if x.a[1] is k:
            return c.ret(some(mk("ref", r, p + (("key", k),))))
        if c.I.keys_ne(c.st, x.a[1], k):
            x = x.a[0]
            continue
        break
    if x.op == "mapempty":
        return c.ret(NONE)
    h = mk("haskey", mv, k)
    return choose(c, h, lambda: some(mk("ref", r, p + (("key", k),))), lambda: NONE)


@reg(MAP, "contains_key")
def map_has(c):
    mv = c.load(c.args[0])
    k = keyval(c, c.args[1])
    if mv.op == "mapins" and mv.a[1] is k:
        return c.ret(TRUE)
    return c.ret(mk("haskey", mv, k))


@reg(MAP, "remove")
def map_remove(c):
    mv = c.load(c.args[0])
    k = keyval(c, c.args[1])
    c.storep(c.args[0], mk("mapdel", mv, k))
    h = mk("haskey", mv, k)
    return choose(c, h, lambda: some(mk("mapget", mv, k)), lambda: NONE)


@reg(MAP, "clear")
def map_clear(c):
    c.storep(c.args[0], mk("mapempty"))
    return c.ret(UNIT)


@reg(MAP, "len")
def map_len(c):
    mv = c.load(c.args[0])
    if mv.op == "mapempty":
        return c.ret(ZERO)
    return c.ret(mk("len", mk("entries", mv)))


@reg(MAP, "is_empty")
def map_is_empty(c):
    mv = c.load(c.args[0])
    if mv.op == "mapempty":
        return c.ret(TRUE)
    return c.ret(t.eq(mk("len", mk("entries", mv)), ZERO))


def ent(kind):
    def f(c):
        mv = c.load(c.args[0]) if kind != "into" else c.args[0]
        e = mk("entries", mv)
        if kind == "drain":
            c.storep(c.args[0], mk("mapempty"))
        k = {"iter": "mapiter", "values": "mapvals", "keys": "mapkeys", "drain": "own", "into": "own"}[kind]
        it = mkiter(k, e if mv.op != "mapempty" else mk("empty"), mk("len", e) if mv.op != "mapempty" else ZERO)
        if kind in ("iter", "values", "keys"):
            r, p = c.I.target(c.args[0])
            it = mkiter(k, mk("ref", r, p), mk("len", e) if mv.op != "mapempty" else ZERO)
        return c.ret(it)

    return f


for a, b in (("iter", "iter"), ("iter_mut", "iter"), ("values", "values"), ("values_mut", "values"), ("keys", "keys"), ("drain", "drain"), ("into_iter", "into")):
    MAP[a] = ent(b)


# ------------------------------------------------------------------ iterators
# value: agg ('iter', kind) (source, pos, end)   kinds: ref (pointer to sequence), own (sequence value)
def mkiter(kind, src, n, pos=ZERO, extra=()):
    return mk("agg", ("iter", kind) + tuple(extra), (src, pos, n))


@reg(SLICE, "iter", "iter_mut")
@reg(VEC, "iter", "iter_mut")
def sl_iter(c):
    return c.ret(mkiter("ref", c.args[0], c.I.seqlen(c.load(c.args[0]))))


@reg(SLICE, "chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut", "windows")
def chunks(c):
    p, k = c.args
    n = c.I.seqlen(c.load(p))
    name = c.callee["name"]

    def build():
        if name.startswith("chunks_exact"):
            cnt = t.div(n, k)
            kind = "chunkx"
        elif name == "windows":
            return mk("agg", ("iter", "windows", k), (p, ZERO, t.add(t.sub(n, k), ONE)))
        else:
            cnt = t.div(t.add(n, t.sub(k, ONE)), k)
            kind = "chunk"
        return mk("agg", ("iter", kind, k), (p, ZERO, cnt))

    return choose_panic(c, t.lt(ZERO, k), build, "chunk size")


@m("std::slice::ChunksExactMut::<'a, T>::into_remainder", "std::slice::ChunksExact::<'a, T>::remainder")
def into_rem(c):
    it = c.args[0] if c.args[0].op == "agg" and c.args[0].a[0][0] == "iter" else c.load(c.args[0])
    p, pos, cnt = it.a[1]
    k = it.a[0][2]
    n = c.I.seqlen(c.load(p))
    full = t.mul(cnt, k)
    return c.ret(ptr_sub(c, p, full, t.sub(n, full)))


@mm("std::iter::IntoIterator", "into_iter")
def into_iter(c):
    if c.callee.get("inst") is not None:
        s = c.self_ty
        if not s.startswith(("std::vec::Vec<", "&", "[", "hashbrown")):
            return None
    s = c.self_ty
    v = c.args[0]
    k = c.tyarg(0)
    if k and k["k"] == "ref":
        to = c.I.prog.types[k["to"]]
        if to["k"] in ("slice", "array") or to["s"].startswith("std::vec::Vec<"):
            return c.ret(mkiter("ref", v, c.I.seqlen(c.load(v))))
        if "HashMap<" in to["s"]:
            return MAP["iter"](c)
        return None
    if s.startswith("std::vec::Vec<") or s.startswith("["):
        return c.ret(mkiter("own", v, c.I.seqlen(v)))
    if s.startswith("hashbrown::HashMap<") or s.startswith("serde_json::Map<"):
        e = mk("entries", v)
        return c.ret(mkiter("own", e, mk("len", e)))
    if v.op == "agg" and v.a[0][0] == "iter":
        return c.ret(v)
    if s.startswith("std::ops::Range"):
        return c.ret(v)
    return c.ret(v)


def iter_item(c, st, it, i):
    kind = it.a[0][1]
    src = it.a[1][0]
    I = c.I
    if kind == "ref":
        r, p = I.target(src)
        return mk("ref", r, E.addpath(p, ("i", i)))
    if kind == "own":
        return I.elem(st, src, i)
    if kind == "step":
        k, hi = it.a[0][2:]
        v = t.add(src, t.mul(i, k))
        st.assume(t.lt(v, hi), True)
        return v
    if kind in ("chunk", "chunkx"):
        k = it.a[0][2]
        r, p = I.target(src)
        a = t.mul(i, k)
        n = I.seqlen(I.load(st, r, p))
        if kind == "chunkx":
            l = k
        else:
            left = t.sub(n, a)
            if st.decide(t.le(k, left)):
                l = k
            elif st.decide(t.lt(left, k)):
                l = left
            else:
                # even split when the chunk size divides the length
                l = minmax(st, "min", k, left)
        return mk("ref", r, E.addpath(p, ("ss", a, l)))
    if kind == "windows":
        k = it.a[0][2]
        r, p = I.target(src)
        return mk("ref", r, E.addpath(p, ("ss", i, k)))
    if kind in ("mapiter", "mapvals", "mapkeys"):
        r, p = I.target(src)
        mv = I.load(st, r, p)
        e = mk("entries", mv)
        key = mk("fld", mk("elem", e, i), 0)
        kref = mk("keyref", e, i)
        vref = mk("ref", r, p + (("key", key),))
        return {"mapiter": t.tuple_(kref, vref), "mapvals": vref, "mapkeys": kref}[kind]
    raise E.Unsupported("iter kind")


def store_iter(c, st, p, it):
    r, path = c.I.target(p)
    c.I.store(st, r, path, it)


def iter_next(c, back=False):
    p = c.args[0]
    it = c.load(p)
    s = c.self_ty
    hops = 0
    while it.op == "ref" and hops < 4:
        p = it
        it = c.load(p)
        hops += 1
    I = c.I
    if s.startswith("std::ops::Range<") or (it.op == "agg" and it.a[0][0] == "adt" and it.a[0][1] == "std::ops::Range"):
        ety = range_elem(c)
        a = t.settype(I.proj(c.st, it, ("f", 0)), ety)
        b = t.settype(I.proj(c.st, it, ("f", 1)), ety)
        r, path = I.target(p)
        res = []
        for st in I.assume_all(c.st.fork(), t.lt(a, b), True):
            if back:
                v = t.sub(b, ONE)
                I.store(st, r, path + (("f", 1),), v)
            else:
                v = a
                I.store(st, r, path + (("f", 0),), t.add(a, ONE))
            res.append(("ret", st, some(v)))
        for st in I.assume_all(c.st, t.lt(a, b), False):
            res.append(("ret", st, NONE))
        return res
    if s.startswith("std::ops::RangeFrom<"):
        a = t.settype(I.proj(c.st, it, ("f", 0)), range_elem(c))
        r, path = I.target(p)
        I.store(c.st, r, path + (("f", 0),), t.add(a, ONE))
        return c.ret(some(a))
    if s.startswith("std::ops::RangeInclusive<"):
        ety = range_elem(c)
        a = t.settype(I.proj(c.st, it, ("f", 0)), ety)
        b = t.settype(I.proj(c.st, it, ("f", 1)), ety)
        r, path = I.target(p)
        res = []
        # modelled as the half-open range [a, b+1) on unbounded integers
        for st in I.assume_all(c.st.fork(), t.le(a, b), True):
            if back:
                I.store(st, r, path + (("f", 1),), t.sub(b, ONE))
                res.append(("ret", st, some(b)))
            else:
                I.store(st, r, path + (("f", 0),), t.add(a, ONE))
                res.append(("ret", st, some(a)))
        for st in I.assume_all(c.st, t.le(a, b), False):
            res.append(("ret", st, NONE))
        return res
    if it.op == "agg" and it.a[0][0] == "iter":
        src, pos, end = it.a[1]
        r, path = I.target(p)
        res = []
        for st in I.assume_all(c.st.fork(), t.lt(pos, end), True):
            if back:
                i = t.sub(end, ONE)
                I.store(st, r, path + (("f", 2),), i)
            else:
                i = pos
                I.store(st, r, path + (("f", 1),), t.add(pos, ONE))
            res.append(("ret", st, some(iter_item(c, st, it, i))))
        for st in I.assume_all(c.st, t.lt(pos, end), False):
            res.append(("ret", st, NONE))
        return res
    # unknown iterator: opaque event, iterator advanced
    args = (I.content(c.st, p),)
    n = c.st.cnt.get("itnext", 0)
    r = I.event(c.st, "next:" + s.split("<")[0], args, c.span)
    store_iter(c, c.st, p, mk("hav", r, 0))
    d = mk("discr", r)
    if d.dom is None:
        d.dom = frozenset((0, 1))
        d.h = None
    return c.ret(r)


def range_elem(c):
    k = c.tyarg(0)
    s = k["s"] if k else ""
    e = s.split("<", 1)[1].rstrip(">") if "<" in s else "usize"
    return e if e in t.INTTY else "usize"


def known_iter(c):
    """a cut (skip/take) of a modelled iterator keeps that iterator's representation"""
    if not c.self_ty.startswith(("std::iter::Skip<", "std::iter::Take<", "std::iter::StepBy<")):
        return False
    it = c.load(c.args[0])
    return it.op == "agg" and it.a[0][0] == "iter"


@mm("std::iter::Iterator", "next")
def nxt(c):
    if c.callee.get("inst") is not None and not known_iter(c):
        return None
    return iter_next(c)


@mm("std::iter::Iterator", "skip", "take", "nth")
def it_cut(c):
    name = c.callee["name"]
    it = c.args[0]
    if name == "nth":
        p = it
        it = c.load(p)
    if not (it.op == "agg" and it.a[0][0] == "iter"):
        return None
    src, pos, end = it.a[1]
    n = c.args[1]
    cut = t.add(pos, n)
    res = []
    for inside in (True, False):
        for st in c.I.assume_all(c.st.fork(), t.le(cut, end), inside):
            a, b = (cut if inside else end, end) if name != "take" else (pos, cut if inside else end)
            v = mk("agg", it.a[0], (src, a, b))
            if name != "nth":
                res.append(("ret", st, v))
                continue
            r, path = c.I.target(p)
            c.I.store(st, r, path, v)
            c2 = E.Call(c.I, st, c.fr, c.callee, [p], c.dty, c.span, c.atys)
            res += iter_next(c2)
    return res


@mm("std::iter::DoubleEndedIterator", "next_back")
def nxtb(c):
    if c.callee.get("inst") is not None:
        return None
    return iter_next(c, True)


@mm("std::iter::ExactSizeIterator", "len")
def exlen(c):
    it = c.load(c.args[0])
    if it.op == "agg" and it.a[0][0] == "iter":
        return c.ret(t.sub(it.a[1][2], it.a[1][1]))
    if c.self_ty.startswith("std::ops::Range<"):
        a = t.settype(c.I.proj(c.st, it, ("f", 0)), range_elem(c))
        b = t.settype(c.I.proj(c.st, it, ("f", 1)), range_elem(c))
        res = []
        for st in c.I.assume_all(c.st.fork(), t.le(a, b), True):
            res.append(("ret", st, t.sub(b, a)))
        for st in c.I.assume_all(c.st, t.le(a, b), False):
            res.append(("ret", st, ZERO))
        return res
    return None


@mm("std::iter::Iterator", "size_hint")
def sizehint(c):
    it = c.load(c.args[0])
    if it.op == "agg" and it.a[0][0] == "iter":
        n = t.sub(it.a[1][2], it.a[1][1])
        return c.ret(t.tuple_(n, t.some(n)))
    return None


@m("std::intrinsics::integer_min", "std::intrinsics::integer_max")
def intmin(c):
    k = c.tyarg(0)
    if k and k["s"] in t.INTTY:
        return c.ret(t.settype(minmax(c.st, c.callee["name"][8:], c.args[0], c.args[1]), k["s"]))
    return None


@m("std::ops::RangeInclusive::<Idx>::new")
def rinew(c):
    return c.ret(t.adt("std::ops::RangeInclusive", 0, "RangeInclusive", (c.args[0], c.args[1], FALSE)))


@m("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains", "std::ops::RangeInclusive::<Idx>::start", "std::ops::RangeInclusive::<Idx>::end")
def rcontains(c):
    it = c.load(c.args[0])
    n = c.callee["name"]
    if n in ("start", "end"):
        return c.ret(ptr_field(c, c.args[0], 0 if n == "start" else 1))
    x = c.load(c.args[1])
    a, b = c.I.proj(c.st, it, ("f", 0)), c.I.proj(c.st, it, ("f", 1))
    hi = t.le(x, b) if "Inclusive" in c.callee["fn"] else t.lt(x, b)
    return c.ret(t.and_(t.le(a, x), hi))


def ptr_field(c, p, i):
    r, path = c.I.target(p)
    return mk("ref", r, path + (("f", i),))


@m("std::ops::Range::<Idx>::is_empty")
def rempty(c):
    it = c.load(c.args[0])
    a, b = c.I.proj(c.st, it, ("f", 0)), c.I.proj(c.st, it, ("f", 1))
    return c.ret(t.not_(t.lt(a, b)))


# consumers without a followed body: a synthetic loop over `next`
def drive(c, it, nextref, per_item, finish, init=None):
    """Run `loop { match next(&mut it) { Some(x) => per_item(st, x) , None => break } }`
    with the engine's loop treatment, using a synthetic body."""
    return synth(c, it, nextref, per_item, finish)


_SYN = {}


def synth_collect(c, it, nextref, seed, action, dty, wrapk=None, inplace=False):
    """build and interpret the MIR of: v=seed; while let Some(x)=next(&mut it){action(&mut v,x)}; v"""
    I = c.I
    prog = I.prog
    from .facts import Body

    nx = dict(nextref)
    ity = c.callee.get("args", [0])
    anyty = 0
    opt = 0
    body = {
        "path": "<collect>",
        "name": "collect",
        "kind": "fn",
        "local": False,
        "generic": False,
        "argc": 2,
        "span": ["<synthetic>", 0, 0],
        # 0: ret, 1: iterator, 2: seed, 3: &mut it, 4: option, 5: discr, 6: item, 7: &mut seed, 8: unit
        "locals": [[anyty], [anyty], [anyty], [anyty], [anyty], [anyty], [anyty], [anyty], [anyty]],
        "blocks": [
            {"s": [], "t": ["goto", 1]},
            {"s": [["=", [3, [], 0], ["ref", True, [1, [], 0]], None]], "t": ["call", ["k", {"ty": 0, "v": nx}], [["m", [3, [], 0]]], [4, [], 0], 2, None, c.span]},
            {"s": [["=", [5, [], 0], ["discr", [4, [], -1], 0], None]], "t": ["switch", ["c", [5, [], 0]], [[0, 4], [1, 3]], 6, 0, None]},
            {
                "s": [
                    ["=", [6, [], 0], ["use", ["m", [4, [["dc", 1, "Some"], ["f", 0, "0"]], 0]]], None],
                    ["=", [7, [], 0], ["ref", True, [2, [], 0]], None],
                ],
                "t": ["call", ["k", {"ty": 0, "v": {"fn": action, "res": action, "name": action, "args": [], "inst": None, "virt": False}}], [["m", [7, [], 0]], ["m", [6, [], 0]]], [8, [], 0], 5, None, c.span],
            },
            {"s": [["=", [0, [], 0], ["use", ["m", [2, [], 0]]], None]], "t": ["ret"]},
            {"s": [["dead", 4], ["dead", 5], ["dead", 6], ["dead", 7], ["dead", 8], ["dead", 3]], "t": ["goto", 1]},
            {"s": [], "t": ["unreach"]},
        ],
    }
    if inplace:
        # the seed is a pointer to the collection that is extended
        body["blocks"][3]["s"][1] = ["=", [7, [], 0], ["use", ["c", [2, [], 0]]], None]
    if wrapk:
        bl = body["blocks"]
        body["locals"] += [[anyty]] * 3

        def fcall(name, dst, src, nxt):
            return ["call", ["k", {"ty": 0, "v": {"fn": name, "res": name, "name": name, "args": [], "inst": None, "virt": False}}], [["m", [src, [], 0]]], [dst, [], 0], nxt, None, c.span]

        # 9: short-circuiting item, 10: its discriminant
        good, goodn = (0, "Ok") if wrapk == "result" else (1, "Some")
        push = dict(bl[3])
        bl[3] = {"s": [["=", [9, [], 0], ["use", ["m", [4, [["dc", 1, "Some"], ["f", 0, "0"]], 0]]], None], ["=", [10, [], 0], ["discr", [9, [], -2], 0], None]],
                 "t": ["switch", ["c", [10, [], 0]], [[good, 7], [1 - good, 8]], 6, 0, None]}
        push["s"] = [["=", [6, [], 0], ["use", ["m", [9, [["dc", good, goodn], ["f", 0, "0"]], 0]]], None], push["s"][1]]
        bl[4] = {"s": [], "t": fcall("$" + goodn, 0, 2, 10)}
        bl.append(push)  # 7
        if wrapk == "result":
            bl.append({"s": [["=", [11, [], 0], ["use", ["m", [9, [["dc", 1, "Err"], ["f", 0, "0"]], 0]]], None]], "t": fcall("$Err", 0, 11, 10)})  # 8
        else:
            bl.append({"s": [["=", [0, [], 0], ["use", ["m", [9, [], 0]]], None]], "t": ["goto", 10]})
        bl.append({"s": [], "t": ["unreach"]})  # 9
        bl.append({"s": [], "t": ["ret"]})  # 10
        bl[5]["s"] += [["dead", 9], ["dead", 10]]
    key = (id(nextref), action, wrapk, inplace)
    b = _SYN.get(key)
    if b is None:
        b = Body(body, prog)
        _SYN[key] = b
    return I.inline(c.st, c.fr, b, [it, seed], c.span)


@m("$Ok")
def _okm(c):
    return c.ret(t.ok(c.args[0]))


@m("$Err")
def _errm(c):
    return c.ret(t.err(c.args[0]))


@m("$Some")
def _somem(c):
    return c.ret(some(c.args[0]))


@m("$push")
def _push(c):
    v = c.load(c.args[0])
    c.storep(c.args[0], mk("push", v, c.args[1]))
    return c.ret(UNIT)


@m("$pushall")
def _pushall(c):
    v = c.load(c.args[0])
    x = c.I.content(c.st, c.args[1])
    if x.op == "agg" and x.a[0][0] == "adt" and x.a[0][1].endswith("option::Option"):
        if x.a[0][3] == "Some":
            c.storep(c.args[0], mk("push", v, x.a[1][0]))
        return c.ret(UNIT)
    n = c.st.known(c.I.seqlen(x))
    if n is None or n > 64:
        raise E.Unsupported("flattening %s" % t.show(x)[:80])
    c.storep(c.args[0], cat(c.I, c.st, v, x))
    return c.ret(UNIT)


def flat_parts(c, nx, it):
    """(reference to the outer iterator's next, the outer iterator) of a flattening iterator that
    was not started yet and whose parts are sequences of a known length"""
    b = c.I.prog.inst[nx["inst"]] if nx.get("inst") is not None else None
    for _ in range(3):
        if b is None:
            return None
        calls = [bl["t"][1][1]["v"] for bl in b.blocks if bl["t"][0] == "call" and bl["t"][1][0] == "k"]
        if "FlattenCompat" in b.path:
            for v in calls:
                if v.get("name") == "next" and "Flatten" not in str(v.get("res")):
                    outer = c.I.proj(c.st, c.I.proj(c.st, it, ("f", 0)), ("f", 0))
                    return v, outer
            return None
        b = next((c.I.prog.inst[v["inst"]] for v in calls if v.get("inst") is not None and v.get("name") == "next"), None)
    return None


@m("$mapins")
def _mapins(c):
    mv = c.load(c.args[0])
    k = keyval(c, c.I.proj(c.st, c.args[1], ("f", 0)))
    v = c.I.proj(c.st, c.args[1], ("f", 1))
    c.st.trace = c.st.trace + (E.Event(("insert", c.args[0], k, v, c.I.proj(c.st, c.args[1], ("f", 0))), c.span),)
    c.storep(c.args[0], mk("mapins", mv, k, v))
    return c.ret(UNIT)


@mm("std::iter::FromIterator", "from_iter")
def from_iter(c):
    return collect_into(c, c.args[0], mk("empty"))


def collect_into(c, it, seed, inplace=None):
    s = c.self_ty
    wrapk = None
    if s.startswith("std::result::Result<"):
        wrapk, s = "result", s[len("std::result::Result<"):]
    elif s.startswith("std::option::Option<"):
        wrapk, s = "option", s[len("std::option::Option<"):]
    nx = c.callee.get("next")
    ii = c.callee.get("into_iter")
    vec = s.startswith(("std::vec::Vec<", "std::string::String", "std::boxed::Box<["))
    mp = s.startswith(("hashbrown::HashMap<", "std::collections::HashMap<"))
    if not vec and not mp:
        return None
    if mp and seed.op == "empty":
        seed = mk("mapempty")
    # direct copies
    if wrapk is None and it.op == "agg" and it.a[0][0] == "iter" and it.a[0][1] == "own" and vec:
        src, pos, end = it.a[1]
        return c.ret(cat(c.I, c.st, seed, c.I.subseq(c.st, src, pos, t.sub(end, pos))))
    if isinstance(ii, dict) and ii.get("fn"):
        rs = c.I.invoke(c.st, c.fr, ii, [it], 0, c.span)
    else:
        rs = [("ret", c.st, it)]
    if not isinstance(nx, dict):
        return None
    out = []
    for k, st, v in rs:
        if k != "ret":
            out.append((k, st, v))
            continue
        c2 = E.Call(c.I, st, c.fr, c.callee, c.args, c.dty, c.span, c.atys)
        if vec and wrapk is None and inplace is None and "Flat" in str(nx.get("res")):
            fp = flat_parts(c2, nx, v)
            if fp is not None:
                try:
                    out += synth_collect(E.Call(c.I, st.fork(), c.fr, c.callee, c.args, c.dty, c.span, c.atys), fp[1], fp[0], seed, "$pushall", 0)
                    continue
                except E.Unsupported:
                    pass
        out += synth_collect(c2, v, nx, inplace if inplace is not None and mp else seed, "$push" if vec else "$mapins", 0, wrapk, inplace is not None and mp)
    return out


@mm("std::iter::Extend", "extend")
def extend(c):
    s = c.self_ty
    v = c.load(c.args[0])
    src = c.args[1]
    k = c.I.prog.types[c.atys[1]] if c.atys else {"s": ""}
    if src.op not in ("agg",) and k["s"].startswith("std::vec::Vec<") and s.startswith("std::vec::Vec<"):
        c.storep(c.args[0], cat(c.I, c.st, v, src))
        return c.ret(UNIT)
    if src.op == "agg" and src.a[0][0] == "array":
        c.storep(c.args[0], cat(c.I, c.st, v, src))
        return c.ret(UNIT)
    if k["k"] == "ref":
        c.storep(c.args[0], cat(c.I, c.st, v, c.load(src)))
        return c.ret(UNIT)
    mp = s.startswith(("hashbrown::HashMap<", "std::collections::HashMap<"))
    r = collect_into(c, src, v, c.args[0] if mp else None)
    if r is None:
        return None
    out = []
    for kind, st, x in r:
        if kind == "ret" and mp:
            x = UNIT
        elif kind == "ret":
            rr, p = c.I.target(c.args[0])
            c.I.store(st, rr, p, x)
            x = UNIT
        out.append((kind, st, x))
    return out


@m("std::array::from_fn")
def array_from_fn(c):
    k = None
    n = None
    for x in c.callee["args"]:
        if not isinstance(x, int):
            try:
                n = int(str(x).strip("'").split("_")[0])
            except ValueError:
                pass
    dk = c.I.prog.types[c.dty]
    if dk["k"] == "array" and isinstance(dk.get("len"), int):
        n = dk["len"]
    if n is None or n > 64:
        return None
    states = [(c.st, ())]
    out = []
    st0 = c.st
    tmp = alloc(c, c.args[0])
    for i in range(n):
        nxt_ = []
        for st, acc in states:
            for kind, s2, v in c.I.call_closure(st, c.fr, tmp, [Int(i)], None, c.span):
                if kind == "ret":
                    nxt_.append((s2, acc + (v,)))
                else:
                    out.append((kind, s2, v))
        states = nxt_
    for st, acc in states:
        out.append(("ret", st, t.array(acc)))
    return out


@mm("std::ops::Fn", "call")
@mm("std::ops::FnMut", "call_mut")
@mm("std::ops::FnOnce", "call_once")
def fncall(c):
    if c.callee.get("inst") is not None:
        return None
    f = c.args[0]
    tup = c.args[1]
    rest = list(tup.a[1]) if tup.op == "agg" else [tup]
    return c.I.call_closure(c.st, c.fr, f, rest, None, c.span)


# ------------------------------------------------------------------ misc
@m("std::f64::<impl f64>::ceil", "std::f64::<impl f64>::sqrt", "std::f64::<impl f64>::floor")
def fmath(c):
    return c.ret(mk("call", c.callee["name"], (c.args[0],)))


for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::unreachable_display", "std::rt::begin_panic"):
    pass


@mm("std::ops::BitXor", "bitxor")
@mm("std::ops::BitXorAssign", "bitxor_assign")
def bitxor(c):
    if c.callee.get("inst") is not None:
        return None
    a, b = c.args
    tys = [c.I.prog.types[x] for x in c.atys] if c.atys else []
    va = c.load(a) if tys and tys[0]["k"] == "ref" else a
    vb = c.load(b) if tys and len(tys) > 1 and tys[1]["k"] == "ref" else b
    ety = "u8"
    for k in tys:
        kk = c.I.prog.types[k["to"]] if k["k"] == "ref" else k
        if kk["s"] in t.INTTY:
            ety = kk["s"]
    t.settype(va, ety)
    t.settype(vb, ety)
    r = t.settype(t.bitop("bxor", [va, vb]), ety)
    if c.callee["name"] == "bitxor_assign":
        c.storep(a, r)
        return c.ret(UNIT)
    return c.ret(r)


@m("aes::cipher::BlockSizeUser::block_size")
def block_size(c):
    return c.ret(Int(16))


NULL = E.State()
_I = object.__new__(E.Interp)
_I.arrlen = {}
t.REB["elem"] = lambda v, i: keep(E.Interp.elem(_I, NULL, v, i), mk("elem", v, i))
t.REB["len"] = lambda v: E.Interp.seqlen(_I, v)
t.REB["sub"] = lambda v, a, n: E.Interp.subseq(_I, NULL, v, a, n)
t.REB["fld"] = lambda v, i: E.Interp.proj(_I, NULL, v, ("f", i)) if v.op in ("agg", "upd") else mk("fld", v, i)
t.REB["vfld"] = lambda v, k, i: E.Interp.proj(_I, NULL, v, ("vf", k, i)) if v.op in ("agg", "upd") else mk("vfld", v, k, i)
t.REB["min"] = lambda a, b: minmax(NULL, "min", a, b)
t.REB["max"] = lambda a, b: minmax(NULL, "max", a, b)


def keep(r, o):
    return r
