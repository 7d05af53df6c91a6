"""Errors are reported. Every function reachable from outside (private helpers are followed into)
that makes a fallible call is interpreted with each fallible call - of another such function, or
of a library function - ending in success or in failure. On a path where a call failed the
function must fail too: return an error, None or false. A path on which it goes on as if nothing
had happened is a swallowed error, also when it merely turns to the next round of a loop; so is a
path on which the error is unwrapped into a panic. The places where going on is the documented
behaviour are named, with the calls whose failure they may absorb."""
import re

from absint.engine import TooComplex

from .lib import *

FLOOR = 60
ASSUMPTIONS = [
    "waiting for a lock does not fail",
    "a None or false result is a failure the caller can see",
    "pure conversions (numbers, text, arrays) are decisions, not operations that fail",
    "the ciphers accept the fixed-size keys and padded buffers they are given",
]

SD = "util::string_decryptor::"
HEADER = re.compile(r"^scroll::Pread::|header::WzHeader::")
ANY = re.compile("")


def only(*names):
    return re.compile("^(" + "|".join(re.escape(n) for n in names) + ")$")


def unknown_kind(o, e):
    """the error absorbed is the one for an unknown extended kind"""
    bad = e.r[2][0]
    v = o.ctx.ck.vi("util::parse_property::WzPropertyParseError", "UnknownExtendedPropertyType")
    d = o.st.deep(mk("discr", bad))
    return d.op == "int" and d.a[0] == v or o.st.rng(d) == (v, v)


def retried(o, e):
    """another attempt of the same kind succeeded afterwards"""
    stem = lambda n: re.sub(r"_v\d+$", "", n)
    g = stem(e.r[1][7:])
    after = [x for x in o.st.trace[o.st.trace.index(e) + 1 :] if x.r[0] == "call"]
    for i, x in enumerate(after):
        if stem(x.r[1]) == g and not (i + 1 < len(after) and after[i + 1].r[1] == "failed:" + x.r[1]):
            return True
    return False


# where a failure may be absorbed: (function, how, failing call, why[, test])
HANDLED = [
    ("util::walk::walk_node", "result", only("node::WzNode::parse"), "a forced traversal visits what can be parsed"),
    ("util::parse_property::parse_property_node", "result", only("util::parse_property::parse_extended_prop"), "a record of an unknown extended kind is skipped", unknown_kind),
    ("file::WzFile::from_file", "result", only(SD + "verify_decryptor_from_wz_file"), "the requested key did not fit, another is looked for"),
    ("file::WzFile::parse", "loop", only("<reader::WzBaseReader<T> as reader::Reader>::read_u8_at", "wz_image::WzImage::get_header_type", "directory::WzDirectory::prepare_entries", "directory::WzDirectory::calculate_offset_and_verify", "directory::WzDirectory::resolve_children", "directory::WzDirectory::verify_string_decryptor"), "a version candidate that does not fit"),
    ("wz_image::WzImage::get_header_type", "result", ANY, "an image that cannot be read has no known kind"),
    ("header::WzHeader::get_ident", "result", ANY, "an unreadable identifier is an unknown one"),
    (re.compile("^header::WzHeader::read_from_buf$|^<header::WzHeader as scroll::ctx::TryFromCtx"), "result", only("header::WzHeader::read_pkg2_random_header_from_buf"), "a random header of the other width is tried", retried),
    ("ms::file::MsFile::from_file", "result", re.compile("^ms::header::MsHeader::from_ms_file"), "the other header generation is tried", retried),
    ("ms::snow2_decryptor::Snow2Decryptor::decrypt_slice", "loop", re.compile("^scroll::"), "cannot fail: four bytes out of four"),
    ("property::<impl std::convert::From<property::WzValue> for serde_json::Value>::from", "result", only("property::string::WzString::get_string"), "an unreadable text converts to an empty one"),
    ("property::lua::WzLua::extract_lua", "loop", ANY, "a key that does not fit the script"),
    ("property::png::get_image", "result", only("property::string::resolve_string_from_node", "property::string::WzString::get_string"), "a link that is not a readable text is no link"),
    ("util::node_util::resolve_uol", "result", only("property::string::WzString::get_string"), "a link that cannot be read stays"),
    (re.compile(r"^reader::WzBaseReader::.*::(create_header|new|from_buff|with_existing_keys)$|^reader::WzSliceReader::.*::(new_with_header|new)$"), "result", HEADER, "a missing header is an empty one"),
    (re.compile(r"^util::string_decryptor::guess_|^util::version::guess_"), "result loop", ANY, "keys are guessed by trying"),
    (re.compile(r"^util::string_decryptor::verify_|^util::version::verify_"), "result", HEADER, "a missing header is an empty one"),
    ("property::png::WzPng::extract_png", "result", re.compile("^flate2::|inflate$"), "data that is not plain zlib is taken for encrypted", retried),
    (re.compile("^property::sound::get_sound_type_from_header$|^util::parse_property::parse_more$"), "panic", only("reader::read_i32_at"), "cannot fail: the length is checked first"),
    ("header::WzHeader::get_header_slice", "panic", ANY, "has no way to report"),
    ("reader::WzBaseReader::<memmap2::Mmap>::from_buff", "panic", re.compile("^memmap2::"), "has no way to report"),
    ("<" + SD + "ecb_decryptor::EcbDecryptor as " + SD + "Decryptor>::at", "panic", ANY, "has no way to report"),
]
PLUMBING = re.compile(
    r"^(<?std::result::|<?std::option::|<std::result::|<std::option::|core::|std::ops::|<.* as std::ops::|std::convert::|<.* as std::convert::|std::str::FromStr|std::str::<impl|std::num|std::slice|std::array|std::char|std::vec|std::env|<.* as std::str"
    r"|std::sync::|<.* as std::iter::|std::iter::|std::fmt::|<.* as std::fmt|<.* as std::clone|std::clone|thiserror|<.* as std::error|std::thread|std::cell|<.* as std::ops)"
)
SKIP_TRAITS = re.compile(r"std::fmt::|std::clone::|std::cmp::|std::error::|serde::|std::default|std::hash|std::convert::From<std|StructuralPartial")


ITEMS = re.compile(r"^<?(std::fs::|std::io::).*Iterator>::next$")


class Cuts(dict):
    def __init__(self, ck, root, fixed=None):
        dict.__init__(self, fixed or {})
        self.ck, self.root = ck, root
        self.P = ck.prog()
        self.n = 0
        self.split = None  # the private functions examined on their own, when there is no other way

    def get(self, name, default=None):
        r = dict.get(self, name)
        if r is not None:
            return r
        return lambda c: self.call(c, name)

    def call(self, c, name):
        if c.callee.get("ctor") or "{closure" in name:
            return None
        ty = self.P.types[c.dty] if isinstance(c.dty, int) else {}
        res = ty.get("k") == "adt" and ty.get("def") == "std::result::Result"
        local = c.callee.get("rlocal") or (c.callee.get("local") and name == c.callee.get("fn"))
        full = c.callee.get("res") or c.callee.get("fn")
        if not local and ty.get("k") == "adt" and ty.get("def") == "std::option::Option" and ITEMS.search(full):
            return self.item(c, full, ty)
        if local:
            if full == self.root or name == self.root:
                pass
            elif not self.outer(full):
                if res and self.split is not None:
                    self.split.add(full)
                    return self.fork(c, full, ty)
                if res:
                    return self.within(c, full)
                return c.I.opaque_call(c, full) if self.dull(full) else None
            if not res:
                return None if not self.outer(full) or self.light(full) else c.I.opaque_call(c, full)
        elif not res or PLUMBING.match(full) or PLUMBING.match(name):
            return None
        return self.fork(c, full, ty)

    def within(self, c, full):
        """follow into a private function; an error of its own making is a failure too"""
        i = c.callee.get("inst")
        b = c.I.prog.inst[i] if i is not None and not c.callee.get("virt") else None
        if b is None or c.fr.depth >= c.I.max_depth or b in c.fr.stack():
            return None
        n = len(c.st.trace)
        outs = c.I.inline(c.st, c.fr, b, c.args, c.span)
        for r in outs:
            if r[0] == "ret" and is_variant(r[2], "Err") and not failures(r[1].trace[n:]):
                c.I.event(r[1], "failed:" + full, (r[2].a[1][0],), c.span)
            elif r[0] == "ret" and is_variant(r[2], "Ok"):
                c.I.event(r[1], full, (), c.span)
        return outs

    def dull(self, f):
        """private computations with loops in which nothing can fail are not followed into"""
        b = self.byname(f)
        return b is not None and len(b.blocks) > 25 and not self.ck.mayfail(f)

    def light(self, f):
        """short functions without calls that may fail are followed into"""
        b = self.byname(f)
        return b is not None and len(b.blocks) <= 12

    def byname(self, f):
        for b in self.P.bodies:
            if b.path == f:
                return b
        return None

    def outer(self, f):
        for b in self.P.bodies:
            if b.path == f:
                return bool(b.j.get("reach")) or bool(b.j.get("impl_trait")) or b.j.get("dk") == "AssocFn" and "Reader::" in f
        return False

    def fork(self, c, name, ty):
        self.n += 1
        r = c.I.opaque_call(c, name)[0][2]
        f = c.st.fork()
        f.trace, c.st.trace = f.trace, c.st.trace
        ok = c.I.proj(c.st, r, ("vf", 0, 0))
        bad = c.I.proj(f, r, ("vf", 1, 0))
        self.type(ok, ty["args"][0])
        self.type(bad, ty["args"][1])
        c.I.event(f, "failed:" + name, (bad,), c.span)
        return [("ret", c.st, t.ok(ok)), ("ret", f, t.err(bad))]

    def item(self, c, name, ty):
        """the next of a series of things that may each be an error"""
        i = self.P.types[ty["args"][0]]
        if i.get("def") != "std::result::Result":
            return None
        end = c.st.fork()
        return [("ret", end, t.NONE)] + [(k, s, t.some(v)) for k, s, v in self.fork(c, name, i)]

    def type(self, x, i):
        p = self.P.prim(i) if isinstance(i, int) else None
        if p and x.op != "int":
            t.settype(x, p)


def roots(ck):
    P = ck.prog()
    seen = {}
    for b in P.bodies:
        if not b.local or b.kind != "fn" or b.path in seen:
            continue
        if b.j.get("impl_trait") and SKIP_TRAITS.search(str(b.j["impl_trait"])):
            continue
        if not (b.j.get("reach") or b.j.get("impl_trait") or b.j.get("dk") == "AssocFn" and "Reader::" in b.path):
            continue
        seen[b.path] = b
    return seen


def fails(ck):
    """functions in which, or in whose private helpers or closures, a call that may fail is made"""
    P = ck.prog()
    direct, refs = set(), {}
    from .c22 import fnrefs

    for b in P.bodies:
        if not b.local:
            continue
        f = b.path.split("::{closure")[0]
        for bl in b.blocks:
            x = bl["t"]
            if x[0] != "call":
                continue
            d = x[3]
            l = d[0] if isinstance(d, list) else d
            if isinstance(l, int) and P.ts(b.locals[l][0]).startswith("std::result::Result<"):
                direct.add(f)
        refs.setdefault(f, set()).update(y for r in fnrefs(b) for y in r[:2] if y)
    return direct, refs


def failures(trace):
    return [e for e in trace if e.r[0] == "call" and e.r[1].startswith("failed:")]


def reported(o, e):
    r = o.st.deep(o.ret)
    bad = e.r[2][0]
    if t.atoms(r, lambda y: y is bad):
        return True
    if r.op == "agg" and r.a[0][0] == "adt":
        return r.a[0][3] in ("Err", "None")
    if o.bool:
        return o.st.decide(r) is False
    return False


def handled(f, how, e, o):
    g = e.r[1][7:]
    for h in HANDLED:
        if not (h[0] == f if isinstance(h[0], str) else h[0].search(f)):
            continue
        # (the private steps of a function are not told apart)
        if how in h[1].split() and (h[2].search(g) or g in o.ctx.ck.private and h[2] is not HEADER) and (len(h) < 5 or h[4](o, e)):
            return h[3]
    return None


def check(ck):
    direct, refs = fails(ck)
    rs = roots(ck)

    def mayfail(f, through=lambda g: True):
        seen, st = set(), [f]
        while st:
            g = st.pop()
            if g in seen:
                continue
            seen.add(g)
            if g in direct:
                return True
            st += [h for h in refs.get(g, ()) if through(h)]
        return False

    ck.mayfail = mayfail
    ck.private = {b.path for b in ck.prog().bodies if b.local} - set(rs)
    for f in sorted(rs):
        if mayfail(f, lambda h: h not in rs):
            ck.guard("errors in %s" % f, one, ck, f)


CIPHER = re.compile(r"^failed:(aes|cipher|c2_chacha|ecb|cbc|md5|chacha)")


def one(ck, f, root=None, seen=None):
    c = ck.ctx(f)
    cuts = Cuts(ck, f)
    c.I.opaque = cuts
    if seen is not None:
        cuts.split = set()
    try:
        outs = c.run()
    except TooComplex:
        if seen is not None:
            raise
        return one(ck, f, f, {f})
    if seen is not None:
        for g in sorted(cuts.split - seen):
            seen.add(g)
            ck.guard("errors in %s" % g, one, ck, g, root, seen)
    ck.funcs |= c.I.inlined
    P = ck.prog()
    rty = P.ts(c.body.locals[0][0])
    bad, unsure, n, fine = {}, None, 0, set()

    def judge(how, e, o):
        w = handled(root or f, how, e, o)
        if w:
            fine.add("%s: %s" % (e.r[1][7:], w))
        else:
            bad.setdefault((e.r[1][7:], how), (e, o))

    for o in outs:
        o.bool = rty == "bool"
        fs = failures(o.st.trace)
        n += 1
        if o.kind != "ret":
            if o.kind == "panic" and fs and fs[-1] is o.st.trace[-1] and "result::unwrap_failed" in str(o.info) and not CIPHER.search(fs[-1].r[1]):
                judge("panic", fs[-1], o)
            continue
        for lp in loops(o):
            for i, s in enumerate(lp.backs):
                for e in failures(s.trace):
                    kept = e.r[2][0]
                    if any(t.atoms(x, lambda y: y is kept) for xs in lp.steps.values() for x in xs):
                        unsure = "the error of %s is kept for after the loop" % e.r[1][7:]
                    else:
                        judge("loop", e, o)
        for e in fs:
            if not reported(o, e):
                judge("result", e, o)
    for g, how in sorted(bad):
        e, o = bad[g, how]
        what = {"loop": "the loop goes on", "panic": "the error becomes a panic", "result": "the result is " + sh(o.ret)[:150] if o.kind == "ret" else ""}[how]
        ck.bad("%s ignores %s" % (f, g), "%s (%s)" % (f, ":".join(str(x) for x in (e.span or ("?",))[:2])), "when %s fails %s\n    path: %s" % (g, what, o.pathdesc()[:300]))
    if unsure:
        raise Undecided(unsure)
    if not bad:
        ck.ok("errors in %s" % f, "%d paths, %d calls%s" % (n, cuts.n, "".join("; " + x for x in sorted(fine))))
