"""Parent links: every function that builds child nodes is interpreted with the nested builders
as contracts ("the nodes I hand back are named as I say and have the parent you gave me"). Each
returned (name, node) pair must satisfy the same contract, and wherever a node is put into a
children map the child's parent link must refer to the node holding that map and the key must be
the child's own name: in record, directory, file and pack parsing, in node parsing, in merging and
in the assembly of a folder. Any other function of the library that inserts into a children map is
reported as undecided."""
from .records import *
from .c14 import forks
from . import c15, c25

FLOOR = 12
ASSUMPTIONS = ["directory entries are of the kinds C14 lets through", "relative links are placed by C27", "WzNode::add files whatever node its caller gives"]
D = "directory::WzDirectory"
IMG = "wz_image::WzImage"
RS = "util::resolver::"
NOONE = mk("noone")


# ---------------------------------------------------------------- who a node is
def ident(I, root, pth):
    """identity of the node stored at a place (in the lock's storage or directly)"""
    pth = tuple(pth)
    if pth and pth[-1] == ("f", 0):
        pth = pth[:-1]
    return I.mkref(None, root, pth)


def who(I, st, arc):
    """identity of the node behind a shared pointer"""
    arc = bare(arc) if arc.op == "at" else arc
    root, pth = I.target(arc)
    return I.mkref(None, root, pth)


def ref_who(I, st, x):
    """identity of the node a &Arc refers to"""
    root, pth = I.target(x)
    return who(I, st, I.load(st, root, pth))


def opt_who(I, st, p):
    """identity of an optional parent argument"""
    if is_variant(p, "None"):
        return NOONE
    if is_variant(p, "Some"):
        return ref_who(I, st, p.a[1][0])
    d = st.decide(t.eq(mk("discr", p), ONE))
    if d is False:
        return NOONE
    return ref_who(I, st, I.proj(st, p, ("vf", 1, 0)))


def link_who(I, st, w):
    """identity of the node a weak link refers to"""
    if w.op == "weak":
        return who(I, st, w.a[0])
    if w.op == "weaknone" or (w.op == "call" and w.a[0] == "default"):
        return NOONE
    return None


def text(I, st, v):
    """the text of a name, whatever wraps it"""
    for _ in range(8):
        if v.op == "at":
            v = v.a[0]
        elif v.op in ("ref", "cref", "str"):
            root, pth = I.target(v)
            v = I.load(st, root, pth)
        elif v.op == "agg" and len(v.a[1]) == 1:
            v = v.a[1][0]
        else:
            break
    return v


def same_text(I, st, a, b):
    if a is b or same_in(st, a, b):
        return True
    x, y = text(I, st, a), text(I, st, b)
    if x is y or same_in(st, x, y):
        return True
    for p, q in ((x, y), (y, x)):
        if p.op in ("fld", "call", "vfld", "sym", "elem") and same_in(st, text(I, st, I.proj(st, p, ("f", 0))), q):
            return True
    return False


# ---------------------------------------------------------------- file names
def path_name(v):
    """a text as (kind, thing): the stem or the full name of a directory entry, seen through the
    conversions of paths and texts"""
    v = bare(v)
    while v.op in ("deref", "val"):
        v = bare(v.a[0])
    if v.op == "bytes":
        return ("text", v.a[0])
    if v.op == "vfld" and v.a[0].op == "call":
        return path_name(v.a[0])
    if v.op == "call":
        n = v.a[0].split("::")[-1]
        if n in ("to_str", "as_os_str", "to_string_lossy", "to_string", "as_ref", "from", "into"):
            return path_name(v.a[1][-1])
        if n == "file_stem":
            p = path_of(v.a[1][0])
            return stem(p)
        if n == "file_name":
            p = bare(v.a[1][0])
            if "DirEntry" in v.a[0]:
                return ("name", p)
            q = path_of(p)
            return ("name", q[1]) if q[0] == "entry" else ("name-of", q)
    return ("?", v)


def path_of(v):
    """a path: ("entry", e) or ("join", folder, text) or something else"""
    v = bare(v)
    while v.op in ("deref", "val"):
        v = bare(v.a[0])
    if v.op == "vfld" and v.a[0].op == "call":
        return path_of(v.a[0])
    if v.op == "call":
        n = v.a[0].split("::")[-1]
        if n == "path" and "DirEntry" in v.a[0]:
            return ("entry", bare(v.a[1][0]))
        if n == "join":
            return ("join", bare(v.a[1][0]), bare(v.a[1][1]))
        if n in ("to_str", "to_string", "as_path", "as_ref", "into", "from", "to_path_buf", "new"):
            return path_of(v.a[1][-1])
    return ("path", v)


def stem(p):
    """the stem of a path"""
    if p[0] == "entry":
        return ("stem", p[1])
    if p[0] == "join" and p[2].op == "cat" and p[2].a[1] is mk("bytes", ".wz"):
        return path_name(p[2].a[0])
    return ("stem-of", p)


def decided_name(x):
    return x[0] in ("stem", "name", "text")


# ---------------------------------------------------------------- contracts of the nested builders
def kids_term(tag, w, *more):
    return mk("call", "kids:" + tag, (w,) + more)


def made(v):
    """(term, identity of the parent it was given) of a node that comes from a contract"""
    e = v.a[0] if v.op == "fld" else v
    if e.op == "elem":
        lst = e.a[0]
        if lst.op == "entries":
            lst = lst.a[0]
        if lst.op == "call" and lst.a[0].startswith("kids:"):
            return e, lst.a[1][0]
        return e, None
    if e.op == "call" and e.a[0] in ("pair", "assembled"):
        return e, e.a[1][0]
    return None, None


def judge_pair(ck, I, st, key, val, holder):
    """the child val filed (or handed back) under key belongs to holder"""
    e, w = made(val)
    if e is None or w is None:
        return stored(ck, I, st, key, val, holder, e)
    if e.op == "call" and e.a[0] == "assembled":
        x, y = path_name(text(I, st, key)), stem(path_of(e.a[1][1]))
        if x != y:
            msg = "a node named after the %s of %s is filed under the %s of %s" % (y[0], sh_any(y[1]), x[0], sh_any(x[1]))
            if decided_name(x) and decided_name(y):
                return msg
            raise Undecided(msg)
    elif not same_text(I, st, key, I.proj(st, e, ("f", 0))) and not same_text(I, st, key, name_field(ck, I, st, val)):
        raise Undecided("a node named %s is filed under %s" % (sh(I.proj(st, e, ("f", 0))), sh(key)))
    if w is not holder:
        return "a node whose parent is %s is filed in %s" % (sh(w), sh(holder))
    return None


def name_field(ck, I, st, val):
    root, pth = I.target(val)
    return I.proj(st, I.load(st, root, pth + (("f", 0),)), ("f", ck.fi(N, "name")))


def sh_any(x):
    return sh(x) if isinstance(x, t.T) else str(x)


def stored(ck, I, st, key, val, holder, e):
    """a child whose fields are in memory"""
    root, pth = I.target(val)
    node = I.load(st, root, pth + (("f", 0),))
    par = I.proj(st, node, ("f", ck.fi(N, "parent")))
    name = I.proj(st, node, ("f", ck.fi(N, "name")))
    w = link_who(I, st, par)
    if w is None:
        if e is not None and par.op == "fld":
            return "a node taken from elsewhere keeps its former parent"
        raise Undecided("the parent link is %s" % sh(par))
    if w is not holder:
        return "a node whose parent is %s is filed in %s" % (sh(w), sh(holder))
    if e is not None and same_text(I, st, key, I.proj(st, e, ("f", 0))):
        return None  # moved on under the name it was filed under
    if not same_text(I, st, key, name):
        x, y = text(I, st, key), text(I, st, name)
        if x.op == y.op == "bytes" or free_text(st, x, y) or free_text(st, y, x):
            return "a node named %s is filed under %s" % (sh(y), sh(x))
        raise Undecided("a node named %s is filed under %s" % (sh(name), sh(key)))
    return None


def free_text(st, x, y):
    """y is a text from the file and x a fixed one that it need not be"""
    p, q = sorted((x, bare(y)), key=lambda z: z.id)
    return x.op == "bytes" and bare(y).op in ("call", "fld", "sym", "ev") and st.decide(mk("seqeq", p, q)) is None


# ---------------------------------------------------------------- insertions and returned lists
def inserts(es, st):
    for e in es:
        if e.r[0] == "insert":
            yield e, st
        elif e.r[0] == "loop":
            for b in e.r[1].backs:
                yield from inserts(b.trace, b)


def judge_inserts(ck, o, own=None, skip=None):
    """(number, message) of the insertions on this path; own: (storage, identity) of a node that
    is handed over by reference together with the shared pointer to it"""
    I = o.ctx.I
    n = 0
    for e, st in inserts(o.st.trace, o.st):
        root, pth = I.target(e.r[1])
        if not pth or pth[-1] != ("f", ck.fi(N, "children")):
            if not is_node(I, st, e.r[3]):
                continue
            raise Undecided("an insertion into %s" % sh(e.r[1]))
        hw = ident(I, root, pth[:-1])
        if own is not None and hw is own[0]:
            hw = own[1]
        m = judge_pair(ck, I, st, e.r[4], e.r[3], hw)
        if m:
            return n, m
        n += 1
    return n, None


def is_node(I, st, v):
    try:
        if made(v)[0] is not None:
            return True
        root, pth = I.target(v)
        x = I.load(st, root, pth)
    except Exception:
        return False
    return x.op == "agg" and x.a[0][0] == "adt" and "RwLock" in str(x.a[0][1])


def judge_list(ck, o, st, lst, holder, keep=None):
    """every (name, node) of the list belongs to holder"""
    I = o.ctx.I
    if lst.op == "call" and lst.a[0].startswith("kids:"):
        return None if lst.a[1][0] is holder else "the nodes handed back have %s as parent, expected %s" % (sh(lst.a[1][0]), sh(holder))
    if st.decide(t.eq(I.seqlen(lst), ZERO)) is True:
        return None
    lps = [lp for lp in all_loops(o.st.trace) if lst in lp.init]
    if lps:
        lp = lps[0]
        m = judge_list(ck, o, st, lp.init[lst], holder, keep)
        for s, b in zip(lp.steps[lst], lp.backs):
            while not m and s is not lst:
                if s.op != "push":
                    raise Undecided("a step of the list: %s" % sh(s))
                if keep is None or keep(b):
                    m = one(ck, I, b, s.a[1], holder)
                s = s.a[0]
            if m:
                return m
        return None
    if lst.op == "tab":
        for lp in all_loops(o.st.trace):
            for phi in lp.init:
                for x, b in zip(lp.steps[phi], lp.backs):
                    if x.op == "push" and x.a[0] is phi and any(e is lst.a[1] for e in [x.a[1]] + [t.subst(x.a[1], {y: lst.a[2]}) for y in lp.init]):
                        return one(ck, I, b, x.a[1], holder)
    if lst.op == "push":
        return judge_list(ck, o, st, lst.a[0], holder, keep) or one(ck, I, st, lst.a[1], holder)
    n = I.seqlen(lst)
    if n.op == "int" and n.a[0] <= 4:
        for k in range(n.a[0]):
            m = one(ck, I, st, I.elem(st, lst, Int(k)), holder)
            if m:
                return m
        return None
    i = mk("sym", "some-index", 0)
    t.settype(i, "usize")
    return one(ck, I, st, I.elem(st, lst, i), holder)


def one(ck, I, st, pair, holder):
    return judge_pair(ck, I, st, I.proj(st, pair, ("f", 0)), I.proj(st, pair, ("f", 1)), holder)


def all_loops(es):
    for e in es:
        if e.r[0] == "loop":
            yield e.r[1]
            for b in e.r[1].backs:
                yield from all_loops(b.trace)


def over(ck, label, outs, f, need=1):
    """f(o) -> message or number of nodes judged, on every path that succeeds"""
    und, n = None, 0
    oks = [o for o in outs if o.kind == "ret" and (o.is_ok() or not (o.is_err()))]
    for o in oks:
        try:
            m = f(o)
        except Undecided as e:
            und = und or e
            continue
        if isinstance(m, str):
            ck.bad(label, o.ctx.where(), "%s: %s\n    path: %s" % (label, m, o.pathdesc()))
            return
        n += m or 0
    if und:
        raise und
    if n < need:
        raise Undecided("only %d nodes seen" % n)
    ck.ok(label, "%d nodes on %d paths" % (n, len(oks)))


# ---------------------------------------------------------------- the rule
def check(ck):
    ck.guard("records", records, ck)
    ck.guard("record lists", lists, ck)
    ck.guard("extended records", extended, ck)
    ck.guard("images", image, ck)
    ck.guard("directory entries", entries_of, ck)
    ck.guard("nested directories", nested_dirs, ck)
    ck.guard("files", files, ck)
    ck.guard("packs", packs, ck)
    ck.guard("node parsing", node_parse, ck)
    ck.guard("merging", merging, ck)
    ck.guard("folders", folder, ck, RS + "resolve_root_wz_file_dir_full")
    ck.guard("base folders", folder, ck, RS + "resolve_base")


# ---------------------------------------------------------------- records
def cut(fn, tag, ck):
    """a nested record parser as a contract"""
    A = ARGS[fn]
    inner_step = step(ck, fn, tag)

    def m(c):
        w = opt_who(c.I, c.st, c.args[A["parent"]])
        res = inner_step(c)
        out = []
        for kind, st, v in res:
            if is_variant(v, "Ok"):
                pos = v.a[1][0]
                if tag == "list":
                    k = mk("agg", ("tuple",), (kids_term("records", w, pos), mk("call", "uols", (pos,))))
                else:
                    k = mk("call", "pair", (w, pos))
                v = t.ok(k)
            out.append((kind, st, v))
        return out

    return m


class Records:
    def __init__(self, ck, fn, *cuts):
        op = reader_models(ck)
        for f, tag in ((LIST, "list"), (NODE, "node"), (EXT, "ext")):
            if f in cuts:
                ck.fn(f)
                op[f] = cut(f, tag, ck)
        self.c = c = ck.ctx(fn, opaque=op)
        c.assume(t.le(c.fld(c.a[ARGS[fn]["reader"]], ck.fi(SR, "pos"), 0), Int(1 << 60)))
        self.outs = c.run()
        ck.funcs |= c.I.inlined
        self.parent = c.a[ARGS[fn]["parent"]]

    def holder(self, o):
        return opt_who(o.ctx.I, o.st, self.parent)


def records(ck, fn=NODE, cuts=(EXT,), label="records"):
    r = Records(ck, fn, *cuts)

    def f(o):
        I = o.ctx.I
        v = o.okval()
        m = judge_pair(ck, I, o.st, I.proj(o.st, v, ("f", 0)), I.proj(o.st, v, ("f", 1)), r.holder(o))
        if m:
            return m
        n, m = judge_inserts(ck, o)
        return m or n + 1

    over(ck, label, r.outs, f)


def extended(ck):
    records(ck, EXT, (EXT, LIST), "extended records")


def lists(ck):
    r = Records(ck, LIST, NODE)

    def f(o):
        return judge_list(ck, o, o.st, o.ctx.I.proj(o.st, o.okval(), ("f", 0)), r.holder(o)) or 1

    over(ck, "record lists", r.outs, f)


def image(ck):
    op = reader_models(ck)
    op[LIST] = cut_any(ck, 0, "records", pair=True)
    c = ck.ctx(IMG + "::resolve_children", opaque=op)

    def f(o):
        return judge_list(ck, o, o.st, o.ctx.I.proj(o.st, o.okval(), ("f", 0)), opt_who(c.I, o.st, c.a[1])) or 1

    outs = c.run()
    ck.funcs |= c.I.inlined
    over(ck, "images", outs, f)


def cut_any(ck, par, tag, pair=False, opt=True):
    """a builder as a contract: fails, or hands back nodes of the parent it was given"""

    def m(c):
        w = (opt_who if opt else ref_who)(c.I, c.st, c.args[par])
        n = c.st.cnt.get(tag, 0)
        c.st.cnt[tag] = n + 1
        k = kids_term(tag, w, Int(n))
        f = c.st.fork()
        v = mk("agg", ("tuple",), (k, mk("call", "uols", (Int(n),)))) if pair else k
        return [("ret", c.st, t.ok(v)), ("ret", f, t.err(mk("call", tag + "-error", ())))]

    return m


# ---------------------------------------------------------------- directories, files, packs
def dir_ctx(ck):
    op = {
        D + "::prepare_entries": forks("prepare"),
        D + "::calculate_offset_and_verify": forks("verify"),
        "directory::WzDirectoryEntry::resolve_name": forks("name", lambda c: mk("call", "entry-name", tuple(c.I.content(c.st, a) for a in c.args))),
        D + "::resolve_children": cut_any(ck, 1, "nested", opt=False),
    }
    c = ck.ctx(D + "::resolve_children", opaque=op)
    outs = c.run()
    ck.funcs |= c.I.inlined
    return c, outs


def entries_of(ck):
    c, outs = dir_ctx(ck)
    ek = ck.fi("directory::WzDirectoryEntry", "dir_type")
    seq = c.fld(c.a[0], ck.fi(D, "entries"))

    def known(b):
        """the entry is one of the kinds that are let through"""
        for p in list(b.bounds):
            if p.op == "discr" and p.a[0].op == "fld" and p.a[0].a[1] == ek and p.a[0].a[0].op == "elem":
                return any(b.decide(t.eq(p, Int(v))) is True for v in (3, 4))
        return True

    def f(o):
        return judge_list(ck, o, o.st, o.okval(), ref_who(c.I, o.st, c.a[1]), known) or 1

    over(ck, "directory entries", outs, f)


def nested_dirs(ck):
    c, outs = dir_ctx(ck)

    def f(o):
        n, m = judge_inserts(ck, o)
        return m or n

    over(ck, "nested directories", outs, f)


def files(ck):
    for gen in ("V1", "V2"):
        c = c15.setup(ck, gen, None)
        c.I.opaque[D + "::resolve_children"] = cut_any(ck, 1, "directory", opt=False)
        outs = c.run()
        ck.funcs |= c.I.inlined
        over(ck, "files " + gen, outs, lambda o: judge_list(ck, o, o.st, o.okval(), ref_who(c.I, o.st, c.a[1])) or 1)


def packs(ck):
    F, HD = "ms::file::MsFile", "ms::header::MsHeader"
    for ver, R in ((1, c25.S), (2, c25.H)):
        op = {}
        for x in (c25.S, c25.H):
            op.update(c25.reader_op(ck, x))
        c = ck.ctx(F + "::parse", opaque=op)
        h = c.fld(c.a[0], ck.fi(F, "header"))
        c.assume(t.eq(c.I.proj(c.st, h, ("f", ck.fi(HD, "ms_file_version"))), Int(ver)))
        outs = c.run()
        ck.funcs |= c.I.inlined
        over(ck, "packs of version %d" % ver, outs, lambda o: judge_list(ck, o, o.st, o.okval(), ref_who(c.I, o.st, c.a[1])) or 1)


# ---------------------------------------------------------------- nodes
def node_parse(ck):
    from . import c10

    op = c10.models(ck)
    for k, fn in c10.STEP.items():
        op[fn] = cut_any(ck, 1, k, pair=k == "Image", opt=k == "Image")
    c = ck.ctx(N + "::parse", opaque=op)
    own = (ident(c.I, *c.I.target(c.a[0])), ref_who(c.I, c.st, c.a[1]))
    outs = c.run()
    ck.funcs |= c.I.inlined

    def f(o):
        n, m = judge_inserts(ck, o, own)
        return m or n

    over(ck, "node parsing", outs, f)


def merging(ck):
    fn = N + "::transfer_childs"
    seen = []

    def again(c):
        seen.append(1)
        c.I.event(c.st, "merge", tuple(c.args), c.span)
        return c.ret(UNIT)

    c = ck.ctx(fn, opaque={fn: again})
    outs = c.run()
    ck.funcs |= c.I.inlined

    def f(o):
        n, m = judge_inserts(ck, o)
        return m or n

    over(ck, "merging", outs, f)


# ---------------------------------------------------------------- folders
def folder(ck, fn):
    ck.fn(fn)

    def parse(c):
        f = c.st.fork()
        root, pth = c.I.target(c.args[0])
        c.I.store(c.st, root, pth + (("f", ck.fi(N, "children")),), kids_term("parsed", ref_who(c.I, c.st, c.args[1])))
        return [("ret", c.st, t.ok(UNIT)), ("ret", f, t.err(mk("call", "parse-error", ())))]

    def assembled(c):
        w = opt_who(c.I, c.st, c.args[3])
        p = c.I.content(c.st, c.args[0])
        return [("ret", c.st.fork(), t.ok(mk("call", "assembled", (w, p)))), ("ret", c.st, t.err(mk("call", "assemble-error", ())))]

    op = {"file::WzFile::from_file": forks("open", lambda c: mk("call", "file-of", tuple(c.I.content(c.st, a) for a in c.args[:1]))), N + "::parse": parse, RS + "resolve_root_wz_file_dir_full": assembled}
    c = ck.ctx(fn, opaque=op)
    outs = c.run()
    ck.funcs |= c.I.inlined
    lab = fn.split("::")[-1]
    root = fn.endswith("dir_full")

    def f(o):
        if root:
            # what the recursion relies on: named after the file, below the parent it was given
            r, p = c.I.target(o.okval())
            node = c.I.load(o.st, r, p + (("f", 0),))
            w = link_who(c.I, o.st, c.I.proj(o.st, node, ("f", ck.fi(N, "parent"))))
            if w is None:
                raise Undecided("parent of the assembled node")
            if w is not opt_who(c.I, o.st, c.a[3]):
                return "the assembled node has %s as parent" % sh(w)
            x = path_name(text(c.I, o.st, c.I.proj(o.st, node, ("f", ck.fi(N, "name")))))
            y = stem(path_of(c.I.content(o.st, c.a[0])))
            if x != y:
                raise Undecided("the assembled node is named %s" % (x,))
        n, m = judge_inserts(ck, o)
        return m or n

    over(ck, lab, outs, f)
