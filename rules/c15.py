"""Version detection: file parsing is interpreted with the candidate generators, the entry
verification and the node creation as events that may succeed or fail. On every accepting path
the hash must be non-zero, verification and node creation must have succeeded for that very
directory, the first image must have a known header, and the hash and version recorded must be
those of the accepted candidate; every other path must be an error that records nothing. Detection
must go through all of 1 to 2000 (770 to 780 for a header without a version word)."""
from .lib import *

FLOOR = 12
F = "file::WzFile"
FM = "file::WzFileMeta"
D = "directory::WzDirectory"
H = "header::WzHeader"
WR = "reader::WzBaseReader"
PV = "util::version::PKGVersion"
G1 = "util::version::pkg1::VersionGen"
OT = "object::WzObjectType"
IH = "wz_image::WzImageHeaderType"
VALID = ("WithoutOffset", "PlainText", "PackText")


def forks(name, okv=UNIT, fail=True):
    def m(c):
        cont = tuple(bare(c.I.content(c.st, a)) for a in c.args)
        n = c.st.cnt.get(name, 0)
        c.st.cnt[name] = n + 1
        c.I.event(c.st, name, cont, c.span)
        f = c.st.fork()
        bad = mk("call", name + "-error", cont)
        f.trace, c.st.trace = f.trace, c.st.trace
        c.I.event(f, name + ":ok", cont, c.span)
        c.I.event(c.st, name + ":failed", cont, c.span)
        return [("ret", f, t.ok(okv(c, cont) if callable(okv) else okv)), ("ret", c.st, t.err(bad))]

    return m


def evs(o, *names):
    return [e.r for e in o.st.trace if e.r[0] == "call" and e.r[1] in names]


IS64 = mk("call", "header-is-64-bit", ())
t.settype(IS64, "bool")


def setup(ck, ident, explicit):
    fm = lambda f: ck.fi(FM, f)
    dd = lambda f: ck.fi(D, f)

    def kids(c, cont):
        return mk("call", "children-of", (cont[0],))

    fresh = {"n": 0}

    def gen(c):
        g = bare(c.I.content(c.st, c.args[0]))
        c.I.event(c.st, "candidate", tuple(c.I.proj(c.st, g, ("f", ck.fi(G1, f))) for f in ("current", "max_version")), c.span)
        n = c.st.cnt.get("cand", 0)
        c.st.cnt["cand"] = n + 1
        e = mk("ev", "candidate", c.I.content(c.st, c.args[0]), n)
        v, h = mk("call", "cand-version", (e,)), mk("call", "cand-hash", (e,))
        t.settype(v, "i32")
        t.settype(h, "u32")
        return [("ret", c.st.fork(), t.some(t.tuple_(v, h))), ("ret", c.st, t.NONE)]

    def gethash(c):
        g = bare(c.I.content(c.st, c.args[0]))
        cur = c.I.proj(c.st, g, ("f", ck.fi(G1, "current")))
        h = mk("call", "hash-of", (cur, c.I.proj(c.st, g, ("f", ck.fi(G1, "encver")))))
        t.settype(h, "u32")
        return c.ret(h)

    def header(c):
        h = mk("call", "fresh-header", ())
        i = ck.mkenum(PV, ident)
        fs = [mk("fld", h, k) for k in range(len(ck.prog().adts[H]["variants"][0]["fields"]))]
        fs[ck.fi(H, "ident")] = i
        return c.ret(t.adt(H, 0, "WzHeader", fs))

    op = {
        D + "::calculate_offset_and_verify": forks("verify"),
        D + "::resolve_children": forks("children", kids),
        D + "::prepare_entries": forks("prepare"),
        D + "::verify_string_decryptor": lambda c: [("ret", c.st.fork(), TRUE), ("ret", c.st, FALSE)],
        D + "::reset_entry_parse": lambda c: (c.I.event(c.st, "reset", (), c.span), c.ret(UNIT))[1],
        "wz_image::WzImage::get_header_type": lambda c: c.ret(hdr(c)),
        G1 + "::check_and_get_version_hash": gethash,
        "<" + G1 + " as std::iter::Iterator>::next": gen,
        "reader::WzBaseReader::<T>::create_header": header,
        F + "::update_keys": lambda c: c.ret(UNIT),
        H + "::is_pkg2_64": lambda c: c.ret(IS64),
    }

    def hdr(c):
        x = mk("call", "first-byte-kind", (bare(c.I.content(c.st, c.args[0])),))
        return x

    c = ck.ctx(F + "::parse", opaque=op)
    rp = c.fld(c.a[0], ck.fi(F, "reader"))
    root, pth = c.I.target(rp)
    hp = pth + (("f", ck.fi(WR, "header")),)
    c.I.store(c.st, root, hp + (("f", ck.fi(H, "ident")),), ck.mkenum(PV, ident))
    c.encver = c.I.load(c.st, root, hp + (("f", ck.fi(H, "encrypt_version")),))
    c.meta0 = c.fld(c.a[0], ck.fi(F, "wz_file_meta"))
    c.pv = c.I.proj(c.st, c.meta0, ("f", fm("patch_version")))
    t.settype(c.pv, "i32")
    v = mk("sym", "explicit-version", 0)
    t.settype(v, "i32")
    c.explicit = None
    A = 2
    if explicit == "arg":
        c.a[A] = t.some(v)
        c.explicit = v
        c.assume(t.eq(v, Int(-1)), False)
    elif explicit == "file":
        c.a[A] = t.NONE
        c.explicit = c.pv
        c.assume(t.eq(c.pv, Int(-1)), False)
    elif explicit == "none":
        c.a[A] = t.NONE
        c.assume(t.eq(c.pv, Int(-1)), True)
    c.parsed0 = c.fld(c.a[0], ck.fi(F, "is_parsed"))
    return c


def check(ck):
    fm = lambda f: ck.fi(FM, f)
    dd = lambda f: ck.fi(D, f)

    def kids(c, cont):
        return mk("call", "children-of", (cont[0],))

    def stale(o):
        """the 64-bit generation derives the entry count from the hash: entries must be read
        again for every candidate"""
        tr = [e.r for e in o.st.trace]
        last = max((i for i, r in enumerate(tr) if r[0] == "call" and r[1] == "children:ok"), default=None)
        if last is None or o.st.decide(IS64) is not True:
            return None
        for r in reversed(tr[:last]):
            if r[0] == "call" and r[1] == "reset":
                return None
            if r[0] == "loop" and any(x.r[0] == "call" and x.r[1] == "children" or x.r[0] == "loop" for b in r[1].backs for x in b.trace):
                return "entries read for an earlier candidate are used for the accepted one (the entry count depends on the candidate's hash)"
        return None

    def unchanged(o, c):
        m = o.fld(c.a[0], ck.fi(F, "wz_file_meta"))
        for i in range(len(ck.prog().adts[FM]["variants"][0]["fields"])):
            a, b = c.I.proj(o.st, m, ("f", i)), c.I.proj(c.st, c.meta0, ("f", i))
            if not o.same(a, b):
                return "the file's recorded %s becomes %s" % (ck.prog().adts[FM]["variants"][0]["fields"][i][0], sh(a))
        p = o.fld(c.a[0], ck.fi(F, "is_parsed"))
        if not o.same(p, c.parsed0):
            return "the file is marked parsed = %s" % sh(p)

    def accepted(o, c, ident, explicit):
        ch = evs(o, "children:ok")
        if not ch:
            return "accepted although no directory was resolved"
        d = ch[-1][2][0]
        h = c.I.proj(o.st, d, ("f", dd("hash")))
        if o.st.decide(t.eq(h, ZERO)) is not False:
            return "accepted although the hash %s may be zero" % sh(h)
        if not evs(o, "verify:ok"):
            # resolving verifies again; both are the format's check
            pass
        if not o.is_ok() or not o.same(o.okval(), mk("call", "children-of", (d,))):
            return "returns %s instead of the accepted directory's nodes" % sh(o.ret)
        # recorded values
        m = o.fld(c.a[0], ck.fi(F, "wz_file_meta"))
        g = lambda f: c.I.proj(o.st, m, ("f", fm(f)))
        if not o.same(g("hash"), h):
            return "the recorded hash is %s, the accepted one is %s" % (sh(g("hash")), sh(h))
        if not o.same(g("path"), c.I.proj(c.st, c.meta0, ("f", fm("path")))):
            return "the recorded path becomes %s" % sh(g("path"))
        if ident == "V1":
            if explicit == "none":
                want = [x for x in t.atoms(h, lambda x: x.op == "call" and x.a[0] == "cand-hash")]
                if not want:
                    return "the accepted hash %s is not a candidate's" % sh(h)
                w = mk("call", "cand-version", want[0].a[1])
                if not o.same(g("patch_version"), w):
                    return "the recorded version is %s, the accepted candidate is %s" % (sh(g("patch_version")), sh(w))
            else:
                want = [x for x in t.atoms(h, lambda x: x.op == "call" and x.a[0] in ("hash-of", "cand-hash"))]
                if not want or want[0].a[0] != "hash-of":
                    return "the accepted hash %s is not the given version's" % sh(h)
                if not o.same(want[0].a[1][0], c.explicit):
                    return "the hash tried is that of version %s, not of the given %s" % (sh(want[0].a[1][0]), sh(c.explicit))
                if not o.same(g("patch_version"), c.explicit):
                    return "the recorded version is %s, the given one is %s" % (sh(g("patch_version")), sh(c.explicit))
        p = o.fld(c.a[0], ck.fi(F, "is_parsed"))
        if not o.same(p, TRUE):
            return "the file is not marked parsed"
        return image(o, c, mk("call", "children-of", (d,)))

    def image(o, c, nodes):
        """the first image was looked for among all nodes and its header is a known one"""
        hs = set()
        for f in list(o.st.bounds):
            for y in t.atoms(f, lambda y: y.op == "call" and y.a[0] == "first-byte-kind"):
                hs.add(y)
        full = visits_all(o, [nodes])
        idx = [(lp, phi) for lp in loops(o) for phi, i in lp.init.items() if i is ZERO]
        if full:
            # no image among the nodes
            lp, phi, _ = full[-1]
            for b in lp.backs:
                k = kind_of(b, c, mk("elem", nodes, phi))
                if k is None or b.decide(t.eq(k, Int(IMG))) is not False:
                    return "accepted without looking at an image's header (an image among the nodes is passed over)"
            return None
        if not hs:
            if not loops(o) and o.st.decide(t.eq(c.len(nodes), ZERO)) is not True:
                return "accepted without looking for an image"
            for phi in [p for lp in loops(o) for p in lp.init]:
                k = kind_of(o.st, c, mk("elem", nodes, phi))
                if k is not None and o.st.decide(t.eq(k, Int(IMG))) is True:
                    return "accepted although an image was found whose header is not looked at"
            raise Undecided("the search for the first image is not recognised")
        for x in hs:
            adt = ADT_IH
            dsc = o.st.simp(c.I.discr(x, adt))
            for v in ck.prog().adts[IH]["variants"]:
                if v["name"] not in VALID and o.st.decide(t.eq(dsc, Int(int(v.get("discr", 0))))) is not False:
                    return "accepted although the first image's header may be %s" % v["name"]
        # the image looked at is the first one
        for lp, phi in idx:
            for b in lp.backs:
                k = kind_of(b, c, mk("elem", nodes, phi))
                if k is not None and b.decide(t.eq(k, Int(IMG))) is not False and any(y is phi for x in hs for y in t.atoms(x, lambda y: y is phi)):
                    return "the image whose header is looked at need not be the first one"
        return None

    def kind_of(b, c, el):
        for f in list(b.bounds):
            for y in t.atoms(f, lambda y: y.op == "discr"):
                if any(z is el for z in t.atoms(y, lambda z: z is el)):
                    return y
        return None

    IMG = None
    ADT_IH = None

    def consts():
        for i, v in enumerate(ck.prog().adts[OT]["variants"]):
            if v["name"] == "Image":
                yield int(v.get("discr", i)) if v.get("discr") is not None else i

    try:
        IMG = next(consts())
        ADT_IH = next(i for i, ty in enumerate(ck.prog().types) if ty.get("k") == "adt" and ty.get("def") == IH)
    except StopIteration:
        ck.bad("anchor:object kinds", "?", "anchor missing: object kinds")
        return

    def run(ident, explicit):
        lab = "%s, version %s" % (ident, {"arg": "given by the caller", "file": "given when opening", "none": "to be detected"}[explicit])
        c = setup(ck, ident, explicit)
        outs = c.run()
        ck.funcs |= c.I.inlined
        rets = [o for o in outs if o.kind == "ret"]
        good = 0
        und = None
        for o in rets:
            path = "\n    path: " + o.pathdesc()
            if o.is_err():
                m = unchanged(o, c)
                if m:
                    ck.bad(lab + ": failure", c.where(), "a failed parse changes the file: %s%s" % (m, path))
                    return
            elif o.is_ok():
                try:
                    m = accepted(o, c, ident, explicit)
                except Undecided as e:
                    und = e
                    continue
                if m:
                    ck.bad(lab + ": acceptance", c.where(), m + path)
                    return
                m = stale(o) if ident == "V2" else None
                if m:
                    ck.bad(lab + ": entries of the candidate", c.where(), m + path)
                    return
                good += 1
            elif explicit != "none" and o.ret.op == "ev" and str(o.ret.a[0]).startswith("rec:" + F) and not any(o.same(x, t.some(c.explicit)) for x in o.ret.a[1]):
                ck.bad(lab + ": only candidate", c.where(), "a version other than the given one is tried (%s)%s" % (sh(o.ret), path))
                return
            else:
                und = Undecided("result %s" % sh(o.ret))
            if ident == "V1" and explicit != "none":
                tries = [e for e in o.st.trace if e.r[0] == "call" and e.r[1] in ("verify:ok", "verify:failed")]
                inloop = [e for lp in loops(o) for b in lp.backs for e in b.trace if e.r[0] == "call" and e.r[1].startswith(("verify", "children", "candidate"))]
                if inloop or evs(o, "candidate"):
                    ck.bad(lab + ": only candidate", c.where(), "a version other than the given one is tried" + path)
                    return
                hs = {x for e in tries for x in t.atoms(e.r[2][0], lambda x: x.op == "call" and x.a[0] == "hash-of")}
                if len(hs) > 1:
                    ck.bad(lab + ": only candidate", c.where(), "several versions are tried: %s%s" % (sorted(map(sh, hs)), path))
                    return
        if und is not None:
            raise und
        if not good:
            ck.bad(lab + ": acceptance", c.where(), "no path accepts a version")
            return
        ck.ok(lab, "%d accepting paths of %d" % (good, len(rets)))

    for e in ("none", "arg", "file"):
        ck.guard("V1 " + e, run, "V1", e)
    ck.guard("V2", run, "V2", "none")

    # detection goes through every version there may be
    def range_():
        lab = "versions tried by detection"
        c = setup(ck, "V1", "none")
        outs = c.run()
        n = 0
        for o in outs:
            if o.kind != "ret":
                continue
            for lp in loops(o):
                for b in lp.backs:
                    for e in b.trace:
                        if not (e.r[0] == "call" and e.r[1] == "candidate"):
                            continue
                        lo, hi = (b.simp(x) for x in e.r[2])
                        have = given(o, c)
                        if lo.op != "int" or hi.op != "int" or have is None:
                            raise Undecided("the candidates are %s to %s" % (sh(lo), sh(hi)))
                        a, z = (1, 2000) if have else (770, 780)
                        n += 1
                        if lo.a[0] > a or hi.a[0] < z:
                            ck.bad(lab, c.where(), "a file %s a version word is only tried as version %d to %d, not %d to %d\n    path: %s" % ("with" if have else "without", lo.a[0], hi.a[0], a, z, o.pathdesc()))
                            return
        if not n:
            raise Undecided("no loop over candidates is found")
        ck.ok(lab, "%d loops" % n)

    def given(o, c):
        """whether the header has a version word, on this path"""
        for f in o.st.bounds:
            for y in t.atoms(f, lambda y: y.op == "discr" and y.a[0] is c.encver):
                for k in (0, 1):
                    if o.st.decide(t.eq(y, Int(k))) is True:
                        return k == 1
        return None

    ck.guard("candidates", range_)

    # a directory that fails any step is never accepted
    def never(ident, explicit, what):
        lab = "%s, %s: refused when %s" % (ident, explicit, what)
        c = setup(ck, ident, explicit)
        op = c.I.opaque
        if what == "entries do not verify":
            # the first check may be left to the second, but one of them must stop it
            op[D + "::calculate_offset_and_verify"] = lambda k: k.ret(t.err(mk("call", "verify-error", ())))
            op[D + "::resolve_children"] = lambda k: k.ret(t.err(mk("call", "children-error", ())))
        elif what == "the directory does not decode":
            op[D + "::resolve_children"] = lambda k: k.ret(t.err(mk("call", "children-error", ())))
        elif what == "the hash is zero":
            op[G1 + "::check_and_get_version_hash"] = lambda k: k.ret(ZERO)

            def zero(k):
                n = k.st.cnt.get("cand", 0)
                k.st.cnt["cand"] = n + 1
                v = mk("call", "cand-version", (mk("ev", "candidate", k.I.content(k.st, k.args[0]), n),))
                t.settype(v, "i32")
                return [("ret", k.st.fork(), t.some(t.tuple_(v, ZERO))), ("ret", k.st, t.NONE)]

            op["<" + G1 + " as std::iter::Iterator>::next"] = zero
        outs = c.run()
        for o in outs:
            if o.kind == "ret" and o.is_ok():
                ck.bad(lab, c.where(), "a version is accepted although %s\n    path: %s" % (what, o.pathdesc()))
                return
        if not any(o.kind == "ret" and o.is_err() for o in outs):
            raise Undecided("no failing path")
        ck.ok(lab)

    for ident, e in (("V1", "none"), ("V1", "arg"), ("V2", "none")):
        for w in ("entries do not verify", "the directory does not decode", "the hash is zero"):
            if ident == "V2" and w == "the hash is zero":
                continue
            ck.guard("%s %s %s" % (ident, e, w), never, ident, e, w)

    # the generator hands out the hash of the version it names
    def generator():
        def h(c):
            root, pth = c.I.target(c.args[0])
            x = mk("call", "hash-of", (c.I.load(c.st, root, pth + (("f", ck.fi(G1, "current")),)),))
            t.settype(x, "u32")
            return c.ret(x)

        c = ck.ctx("<" + G1 + " as std::iter::Iterator>::next", opaque={G1 + "::check_and_get_version_hash": h})
        cur = c.fld(c.a[0], ck.fi(G1, "current"))
        mx = c.fld(c.a[0], ck.fi(G1, "max_version"))
        t.settype(cur, "i32")
        t.settype(mx, "i32")
        c.assume(t.le(cur, Int(100000)))

        def ok(o):
            x = o.st.deep(o.ret)
            if is_variant(x, "None"):
                return None if o.st.decide(t.lt(mx, cur)) is True else "the candidates end before the last one"
            if not is_variant(x, "Some"):
                raise Undecided("candidate %s" % sh(x))
            v, hh = x.a[1][0].a[1]
            if not o.same(v, cur):
                return "candidate version is %s, expected %s" % (sh(v), sh(cur))
            if not o.same(hh, mk("call", "hash-of", (cur,))):
                return "the hash handed out with version %s is %s" % (sh(cur), sh(hh))
            n = o.fld(c.a[0], ck.fi(G1, "current"))
            if not o.same(n, t.add(cur, ONE)):
                return "the next candidate is %s" % sh(n)

        ck.case("candidate generator", c, ok)

    ck.guard("candidate generator", generator)
