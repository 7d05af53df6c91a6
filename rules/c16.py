"""Keys: opening an image or a file is interpreted with the verification and detection functions
as events; the reader must be built with exactly the key that was verified, a refused key leads
to an error (image) or to detection (file). The verification functions themselves are
interpreted over the grammar symbols of the file, so they accept exactly when the probe string
decodes, and detection returns only keys for which they accept."""
from .lib import *
from .grammar import *
from . import c15

FLOOR = 20
IM = "wz_image::WzImage"
F = "file::WzFile"
FM = "file::WzFileMeta"
V = "util::version::"
S = "util::string_decryptor::"
WR = "reader::WzBaseReader"
H = "header::WzHeader"
PV = "util::version::PKGVersion"
MV = "util::version::WzMapleVersion"
DT = "directory::WzDirectoryType"
ECB = S + "ecb_decryptor::EcbDecryptor"
SD = S + "StringDecryptor::"


def evm(name, res):
    def m(c):
        cont = tuple(bare(c.I.content(c.st, a)) for a in c.args)
        c.I.event(c.st, name, cont, c.span)
        return res(c, cont)

    return m


def boolm(name):
    def r(c, cont):
        v = mk("call", name, cont)
        t.settype(v, "bool")
        return c.ret(v)

    return evm(name, r)


def resm(name):
    """Ok(()) or an error, remembered as the boolean term name(args)"""

    def r(c, cont):
        v = mk("call", name, cont)
        t.settype(v, "bool")
        f = c.st.fork()
        res = []
        if f.assume(v, True):
            res.append(("ret", f, t.ok(UNIT)))
        if c.st.assume(v, False):
            res.append(("ret", c.st, t.err(mk("call", name + "-error", cont))))
        return res

    return evm(name, r)


def optm(name):
    def r(c, cont):
        v = mk("call", name, cont)
        return [("ret", c.st.fork(), t.some(v)), ("ret", c.st, t.NONE)]

    return evm(name, r)


def termm(name, skip=0):
    return lambda c: c.ret(mk("call", name, tuple(bare(c.I.content(c.st, a)) for a in c.args[skip:])))


def evs(o, name):
    return [e.r for e in o.st.trace if e.r[0] == "call" and e.r[1] == name]


def unload(x):
    while x.op in ("at", "init") and isinstance(x.a[0], t.T):
        x = x.a[0]
    return x


def at_arg(o, x, c, i):
    """x is argument i of the function, by pointer or by content"""
    x = bare(x)
    s = bare(o.content(c.a[i]))
    return x is c.a[i] or x is s or x is bare(c.seq(c.a[i])) or o.same(x, s) or o.same(x, c.a[i]) or o.same(bare(o.content(x)), s)


def true(o, name, *args):
    """the verification `name` of these arguments is known to have succeeded on this path"""
    for e in evs(o, name):
        if len(e[2]) >= len(args) and all(a is None or (a(b) if callable(a) else o.same(a, b)) for a, b in zip(args, e[2])):
            v = mk("call", name, e[2])
            v.ty = "bool"
            if o.st.decide(v) is True:
                return True
    return False


def check(ck):
    images(ck)
    files(ck)
    verify_image(ck)
    guess_image(ck)
    verify_file(ck)
    guess_file(ck)
    plain(ck)
    detection(ck)
    first_name(ck)


# ---------------------------------------------------------------- opening
def images(ck):
    op = {
        V + "verify_iv_from_wz_img": boolm("verify"),
        V + "guess_iv_from_wz_img": optm("guess"),
        SD + "get_decryptor_by_iv": termm("key-of-iv", 1),
        SD + "get_decryptor": termm("key-of-kind", 1),
    }

    def go(given):
        c = ck.ctx(IM + "::from_file", opaque=op)
        iv = mk("sym", "given-iv")
        c.a[1] = t.some(iv) if given else t.NONE

        def f(o):
            if given and evs(o, "verify"):
                v = evs(o, "verify")[0]
                if not o.same(v[2][1], iv):
                    return "the key verified is %s, not the given one" % sh(v[2][1])
            if not o.is_ok():
                if not o.is_err():
                    raise Undecided("result %s" % sh(o.ret))
                return None
            img = o.okval()
            rd = bare(o.content(c.I.proj(o.st, img, ("f", ck.fi(IM, "reader")))))
            g = lambda fl: c.I.proj(o.st, rd, ("f", ck.fi(WR, fl)))
            mp, keys = g("map"), bare(o.content(g("keys")))
            if given:
                if not true(o, "verify", mp, iv):
                    return "an image is opened with a given key that was not verified against it"
                used = iv
            else:
                gs = evs(o, "guess")
                if not gs:
                    return "an image without a given key is opened without detecting one"
                if not o.same(gs[-1][2][0], mp):
                    return "the key is detected on %s, not on the image" % sh(gs[-1][2][0])
                used = mk("call", "guess", gs[-1][2])
            want = mk("call", "key-of-iv", (used,))
            if not o.same(keys, want):
                return "the image is read with the key %s, expected %s" % (sh(keys), sh(want))

        ck.case("image, key %s" % ("given" if given else "to be detected"), c, f)
        # refusal
        op2 = dict(op)
        op2[V + "verify_iv_from_wz_img"] = lambda k: k.ret(FALSE)
        op2[V + "guess_iv_from_wz_img"] = lambda k: k.ret(t.NONE)
        c = ck.ctx(IM + "::from_file", opaque=op2)
        c.a[1] = t.some(iv) if given else t.NONE
        ck.case("image, key %s: refused" % ("given" if given else "to be detected"), c, want_err)

    for g in (True, False):
        ck.guard("image %s" % g, go, g)


def files(ck):
    op = {
        S + "verify_decryptor_from_wz_file": resm("verify"),
        S + "guess_decryptor_from_wz_file": optm("guess"),
        SD + "get_decryptor": termm("key-of-kind", 1),
        ECB + "::from_iv": termm("ecb", 0),
    }

    def go(iv, key):
        lab = "file, %s" % ("shared key given" if key else "iv given" if iv else "nothing given")
        c = ck.ctx(F + "::from_file", opaque=op)
        ivv = mk("sym", "given-iv")
        kv = mk("sym", "given-key")
        c.a[1] = t.some(ivv) if iv else t.NONE
        c.a[3] = t.some(mk("ref", kv)) if False else (t.some(kv) if key else t.NONE)
        given = kv if key else None

        def f(o):
            if not o.is_ok():
                return None if o.is_err() else "unrecognised result %s" % sh(o.ret)
            fl = o.okval()
            rd = bare(o.content(c.I.proj(o.st, fl, ("f", ck.fi(F, "reader")))))
            g = lambda x: c.I.proj(o.st, rd, ("f", ck.fi(WR, x)))
            mp = g("map")
            keys = [g("keys"), g("pkg2_keys")]
            meta = c.I.proj(o.st, fl, ("f", ck.fi(F, "wz_file_meta")))
            flag = c.I.proj(o.st, meta, ("f", ck.fi(FM, "string_decryptor_verified")))
            d = o.st.decide(flag)
            vs, gs = evs(o, "verify"), evs(o, "guess")
            okv = [v for v in vs if o.st.decide(boolterm("verify", v[2])) is True]
            if key or iv:
                if not vs:
                    return "the given key is not checked against the file"
            if okv:
                chosen = okv[0][2][1]
                if not o.same(okv[0][2][0], mp):
                    return "the given key is checked against %s, not the file" % sh(okv[0][2][0])
                if gs:
                    # detection after success: harmless only when its result is not used
                    pass
            elif gs and any(has_atom(k, "guess", o) for k in keys):
                chosen = mk("call", "guess", gs[-1][2])
                if not o.same(gs[-1][2][0], mp):
                    return "the key is detected on %s, not on the file" % sh(gs[-1][2][0])
            else:
                chosen = None
            if chosen is None:
                if not gs:
                    return "no key passed, but detection was not tried"
                if d is not False:
                    return "the file is marked as having a verified key although none passed"
                for k in keys:
                    if any(has_sub(o, k, x) for x in (kv, ivv)):
                        return "a key that was refused is used: %s" % sh(k)
            else:
                if d is not True:
                    return "the verified key is not recorded as verified"
                used = [k for k in keys if o.same(bare(o.content(k)), bare(o.content(chosen))) or o.same(k, chosen)]
                if not used:
                    return "the verified key %s is not the one used (%s, %s)" % (sh(chosen), sh(keys[0]), sh(keys[1]))

        ck.case(lab, c, f)

    for iv, key in ((False, False), (True, False), (False, True), (True, True)):
        ck.guard("file %s %s" % (iv, key), go, iv, key)


def boolterm(name, args):
    v = mk("call", name, args)
    v.ty = "bool"
    return v


def has_atom(x, name, o):
    x = o.content(x)
    return any(True for _ in t.atoms(x, lambda y: y.op == "call" and y.a[0] == name))


def has_sub(o, x, s):
    x = o.content(x)
    return any(True for _ in t.atoms(x, lambda y: y is s))


# ---------------------------------------------------------------- checks
def verify_image(ck):
    def go():
        op = reader_models(ck)
        op[ECB + "::from_iv"] = termm("ecb", 0)
        op[DECR + "is_pkg2"] = lambda k: k.ret(FALSE)
        c = ck.ctx(V + "verify_iv_from_wz_img", opaque=op)
        n = {"t": 0, "f": 0}

        def is_probe(o, x):
            return x.op == "call" and x.a[0] == "rd:read_wz_string" and at_arg(o, x.a[1][0], c, 0) and x.a[1][1] is ONE

        def f(o):
            d = o.st.decide(o.ret)
            for x in list(t.atoms(o.ret, lambda y: y.op in ("seqeq",))) + [y for z in o.st.bounds for y in t.atoms(z, lambda y: y.op == "seqeq")]:
                a, b = unload(x.a[0]), unload(x.a[1])
                pr, lit = (a, b) if b.op == "bytes" else (b, a)
                if not is_probe(o, pr):
                    if any(True for _ in t.atoms(pr, lambda y: y.op == "call" and str(y.a[0]).startswith("rd:"))):
                        return "the probe string compared is %s, expected the string at position 1" % sh(pr)
                    continue
                if lit.op != "bytes" or lit.a[0] not in (b"Property", "Property"):
                    return "the probe string is compared with %s" % sh(lit)
                dd = o.st.decide(x)
                if o.ret is x or (d is not None and dd is not None and d == dd):
                    n["t"] += 1
                    return None
                return "the answer %s does not say whether the probe string is \"Property\"" % sh(o.ret)
            if d is False:
                n["f"] += 1
                return None
            if d is True:
                return "a key is accepted without comparing the probe string"
            r = o.ret
            while r.op == "not":
                r = r.a[0]
            if r.op == "call" and str(r.a[0]).startswith("str::") and r.a[0] not in ("str::eq", "str::cmp"):
                return "the answer is %s, not whether the probe string is \"Property\"" % sh(o.ret)
            raise Undecided("answer %s" % sh(o.ret))

        ck.case("verify image key", c, f)
        if not n["t"]:
            ck.unsure("verify image key: accepting", "no path compares the probe string")

    ck.guard("verify image key", go)

    def keyused():
        """the probe is read with a key made of the iv in question"""
        seen = []
        op = reader_models(ck)

        def read(c):
            root, pth = c.I.target(c.args[0])
            k = c.I.content(c.st, c.I.load(c.st, root, pth + (("f", ck.fi(SR, "keys")),)))
            seen.append(k)
            return c.ret(t.err(mk("call", "read-error", ())))

        for p in list(op):
            if p.endswith("::read_wz_string"):
                op[p] = read
        op[ECB + "::from_iv"] = termm("ecb", 0)
        op[DECR + "is_pkg2"] = lambda k: k.ret(FALSE)
        c = ck.ctx(V + "verify_iv_from_wz_img", opaque=op)
        iv = c.seq(c.a[1])
        c.run()
        if not seen:
            raise Undecided("the probe string is not read by read_wz_string")
        for k in seen:
            ivs = [x for x in t.atoms(k, lambda y: y.op == "call" and y.a[0] == "ecb")]
            if len(ivs) != 1 or not (bare(ivs[0].a[1][0]) is iv or bare(ivs[0].a[1][0]) is bare(iv)):
                ck.bad("verify image key: key", c.where(), "the probe is read with the key %s, not with one made of the given iv" % sh(k))
                return
        ck.ok("verify image key: key")

    ck.guard("verify image key: key", keyused)


def guess_image(ck):
    def go():
        op = {V + "verify_iv_from_wz_img": boolm("verify"), V + "get_iv_by_maple_version": ivmodel(ck)}
        c = ck.ctx(V + "guess_iv_from_wz_img", opaque=op)
        s = c.seq(c.a[0])
        guessed(ck, c, "detect image key", "verify", s, {"GMS", "EMS", "BMS"}, lambda o: first_byte_other(o, s))

    ck.guard("detect image key", go)


def first_byte_other(o, s):
    b = t.settype(lev(1, False, s, ZERO), "u8") or lev(1, False, s, ZERO)
    n = o.ctx.I.seqlen(s)
    if o.st.decide(t.eq(n, ZERO)) is True:
        return True
    el = o.ctx.I.elem(o.st, s, ZERO)
    return o.st.decide(t.eq(el, Int(0x73))) is False or o.st.decide(t.eq(b, Int(0x73))) is False


def ivmodel(ck):
    def m(c):
        return c.ret(mk("call", "iv-of", (bare(c.I.content(c.st, c.args[0])),)))

    return m


def vname(x):
    return x.a[0][3] if x.op == "agg" and x.a[0][0] == "adt" else None


def guessed(ck, c, label, vev, buf, want, excused, keyarg=1, keyterm="iv-of", okbool=True):
    """every returned key passed the check on this data; without a result all candidates failed"""

    def f(o):
        tried = {}
        for e in evs(o, vev):
            k = e[2][keyarg]
            tried[k] = (e[2], o.st.decide(boolterm(vev, e[2])))
        if is_variant(o.ret, "Some"):
            k = bare(o.content(o.ret.a[1][0]))
            for x, (args, d) in tried.items():
                if o.same(x, k):
                    if d is not True:
                        return "the key returned, %s, did not pass the check" % sh(k)
                    if not at_arg(o, args[0], c, 0):
                        return "the key was checked against %s, not the data" % sh(args[0])
                    return None
            return "the key returned, %s, was not checked" % sh(k)
        if is_variant(o.ret, "None"):
            if excused(o):
                return None
            seen = set()
            for x, (args, d) in tried.items():
                if d is not False:
                    return "no key is returned although %s passed the check" % sh(x)
                for y in t.atoms(x, lambda y: y.op == "call" and y.a[0] == keyterm):
                    seen.add(vname(y.a[1][-1]))
            for lp in loops(o):
                for b in lp.backs:
                    for e in b.trace:
                        if e.r[0] != "call" or e.r[1] != vev:
                            continue
                        if b.decide(boolterm(vev, e.r[2])) is not False:
                            return "detection goes on although %s passed the check" % sh(e.r[2][keyarg])
                        for y in t.atoms(e.r[2][keyarg], lambda y: y.op == "elem" and y.a[0].op == "agg" and y.a[0].a[0][0] == "array"):
                            arr = y.a[0]
                            if any(sq is arr and ph is y.a[1] for _, ph, sq in visits_all(o, [arr])):
                                seen |= {vname(z) for z in arr.a[1]}
                            else:
                                m = misses(o, [arr])
                                if m:
                                    return "no key is returned although not all candidates were tried: " + m
                                raise Undecided("candidates tried in a loop of another form")
            if not want <= seen:
                return "no key is returned although %s %s not tried" % (", ".join(sorted(want - seen)), "were" if len(want - seen) > 1 else "was")
            return None
        raise Undecided("result %s" % sh(o.ret))

    ck.case(label, c, f)


def verify_file(ck):
    W = S + "verify_decryptor_from_wz_file_with_meta"

    def go():
        rf = {p.path: None for p in ck.prog().bodies if p.path.endswith("::try_resolve_wz_string_meta")}
        if not rf:
            raise Missing("try_resolve_wz_string_meta")
        text = mk("call", "probe-text", ())
        seen = []

        def res(c):
            cont = tuple(bare(c.I.content(c.st, a)) for a in c.args[1:])
            root, pth = c.I.target(c.args[0])
            k = t.tuple_(*[c.I.content(c.st, c.I.load(c.st, root, pth + (("f", ck.fi(SR, x)),))) for x in ("keys", "pkg2_keys")])
            b = c.I.content(c.st, c.I.load(c.st, root, pth + (("f", ck.fi(SR, "buf")),)))
            c.I.event(c.st, "resolve", (b, k) + cont, c.span)
            f = c.st.fork()
            return [("ret", f, t.ok(text)), ("ret", c.st, t.err(mk("call", "resolve-error", cont)))]

        def asc(c):
            v = mk("call", "is-ascii", (bare(c.I.content(c.st, c.args[0])),))
            t.settype(v, "bool")
            return c.ret(v)

        c = ck.ctx(W, opaque={p: res for p in rf})
        c.I.opaque["core::str::is_ascii"] = asc
        s = c.seq(c.a[0])
        m = c.seq(c.a[2])
        key = c.seq(c.a[1])
        mf = lambda x: c.I.proj(c.st, m, ("f", ck.fi(META, x)))
        n = [0]

        def f(o):
            if o.is_err():
                return None
            if not o.is_ok():
                raise Undecided("result %s" % sh(o.ret))
            n[0] += 1
            r = evs(o, "resolve")
            if len(r) != 1:
                return "a key is accepted without decoding the probe string"
            b, k, ty, off, ln = r[0][2]
            if not at_arg(o, b, c, 0):
                return "the probe string is decoded from %s" % sh(b)
            p2 = [(x, v) for x, v in o.st.bounds.items() if "is_pkg2" in sh(x)]
            for i, x in enumerate(k.a[1]):
                if i == 0 and any(v == (1, 1) for _, v in p2):
                    continue
                if not (at_arg(o, x, c, 1) or any(True for _ in t.atoms(x, lambda y: y is key or y is c.a[1]))):
                    return "the probe string is decoded with %s, not with the key in question" % sh(x)
            for g, w, what in ((ty, mf("string_type"), "kind"), (off, mf("offset"), "position"), (ln, mf("length"), "length")):
                if not o.same(g, w):
                    return "the probe string's %s is %s, expected %s" % (what, sh(g), sh(w))
            a = [y for x in o.st.bounds for y in t.atoms(x, lambda y: y.op == "call" and "ascii" in str(y.a[0]))]
            if not a:
                return "a key is accepted for a name that need not be ASCII"
            if not any(o.st.decide(y) is True for y in a):
                return "a key is accepted although the name is not ASCII"

        ck.case("verify file key against its first name", c, f)
        if not n[0]:
            ck.bad("verify file key against its first name", c.where(), "no key is ever accepted")

    ck.guard("verify file key", go)

    def outer():
        meta = mk("call", "first-name", ())
        op = {
            S + "try_get_first_wz_name_meta": lambda c: [("ret", c.st.fork(), t.ok(mk("call", "first-name", (bare(c.I.content(c.st, c.args[0])),)))), ("ret", c.st, t.err(mk("call", "no-name", ())))],
            W: resm("check"),
        }
        c = ck.ctx(S + "verify_decryptor_from_wz_file", opaque=op)
        s, key = c.seq(c.a[0]), c.seq(c.a[1])

        def f(o):
            name = lambda x: x.op == "call" and x.a[0] == "first-name" and at_arg(o, x.a[1][0], c, 0)
            data = lambda x: at_arg(o, x, c, 0)
            if o.is_ok() and not true(o, "check", data, lambda x: at_arg(o, x, c, 1), name):
                if not true(o, "check", data, None, name):
                    return "a key is accepted without checking it on the file's first name"
                return "another key is checked than the one in question"

        ck.case("verify file key", c, f)

    ck.guard("verify file key outer", outer)


def guess_file(ck):
    def go():
        nm = lambda n: (lambda c: [("ret", c.st.fork(), t.ok(mkmeta(ck, n, c))), ("ret", c.st, t.err(mk("call", "no-name", ())))])
        op = {
            S + "try_get_first_wz_name_meta": nm("first-name"),
            S + "try_get_first_wz_name_pkg2_meta_from_wz_file": nm("first-pkg2-name"),
            S + "verify_decryptor_from_wz_file_with_meta": resm("check"),
            SD + "get_decryptor_by_version": termm("key-of", 1),
        }
        c = ck.ctx(S + "guess_decryptor_from_wz_file", opaque=op)
        s = c.seq(c.a[0])

        def f(o):
            ty = lambda n: o.st.decide(t.eq(mk("call", n + "-kind", ()), Int(ck.vi(STY, "Empty"))))
            tried = {}
            for e in evs(o, "check"):
                if not at_arg(o, e[2][0], c, 0):
                    return "a key is checked against %s, not the file" % sh(e[2][0])
                tried[e[2][1]] = (o.st.decide(boolterm("check", e[2])), e[2][2])
            if is_variant(o.ret, "Some"):
                k = bare(o.content(o.ret.a[1][0]))
                for x, (d, meta) in tried.items():
                    if o.same(x, k):
                        return None if d is True else "the key returned, %s, did not pass the check" % sh(k)
                return "the key returned, %s, was not checked" % sh(k)
            if is_variant(o.ret, "None"):
                bad = [x for x, (d, _) in tried.items() if d is not False]
                if bad:
                    return "no key is returned although %s passed the check" % sh(bad[0])
                return None
            raise Undecided("result %s" % sh(o.ret))

        ck.case("detect file key", c, f)

        # all candidates fail: which were tried
        for n, want in (("first-name", {"BMS", "GMS", "EMS"}), ("first-pkg2-name", {"KMST1198"})):
            got = set()

            def record(c, n=n, got=got):
                cont = tuple(bare(c.I.content(c.st, a)) for a in c.args)
                if any(True for _ in t.atoms(cont[2], lambda y: y.op == "call" and y.a[0].startswith(n + "-"))):
                    for y in t.atoms(cont[1], lambda y: y.op == "call" and y.a[0] == "key-of"):
                        got.add(vname(y.a[1][-1]))
                return c.ret(t.err(mk("call", "refused", cont)))

            op2 = dict(op)
            op2[S + "verify_decryptor_from_wz_file_with_meta"] = record
            c = ck.ctx(S + "guess_decryptor_from_wz_file", opaque=op2)
            c.run()
            if not got:
                raise Undecided("candidates not seen")
            ck.expect("detect file key: candidates for the %s" % n, None in got or want <= got, c.where(), "%s not tried on the %s" % (sorted(want - {g for g in got if g}), n))

    ck.guard("detect file key", go)


def mkmeta(ck, n, c):
    fs = [None, None, None]
    ty = mk("call", n + "-kind", ())
    for f in ("offset", "length"):
        fs[ck.fi(META, f)] = mk("call", n + "-" + f, ())
    fs[ck.fi(META, "string_type")] = mk("call", n + "-kind", ())
    return t.adt(META, 0, "WzStringMeta", fs)


def plain(ck):
    """the iv forms of the same functions"""

    def guess():
        op = {V + "verify_iv_from_wz_file": resm("verify"), V + "get_iv_by_maple_version": ivmodel(ck)}
        c = ck.ctx(V + "guess_iv_from_wz_file", opaque=op)
        s = c.seq(c.a[0])
        guessed(ck, c, "detect file iv", "verify", s, {"GMS", "EMS", "BMS"}, lambda o: False)

    ck.guard("detect file iv", guess)


# ---------------------------------------------------------------- the probe of a file
def probe_at(ck, c, o, x):
    """None when x is the string of the first entry behind the count at the data start"""
    seq = None
    cnt = {y for f in list(o.st.bounds) + [x] for y in t.atoms(f, lambda y: y.op == "call" and y.a[0] == "end:read_wz_int")}
    cnt = {y for y in cnt if at_arg(o, y.a[1][0], c, 0)}
    starts = {y.a[1][1] for y in cnt}
    first = [d for d in starts if not any(z in cnt for z in t.atoms(d, lambda z: z in cnt))]
    if len(first) != 1:
        raise Undecided("the entry count is read at %s" % ", ".join(map(sh, starts)))
    D = first[0]
    hd = lambda fl: [y for y in t.atoms(x, lambda y: y.op == "fld" and "pread:header::WzHeader" in sh(y) and y.a[1] == ck.fi(H, fl))]
    ok = D is ZERO or (D.op == "fld" and "pread:header::WzHeader" in sh(D) and D.a[1] == ck.fi(H, "data_start"))
    if not ok:
        return "the entries are looked for at %s, expected the data start" % sh(D)
    e = next(y for y in cnt if y.a[1][1] is D)
    seq = e.a[1][0]
    v1 = [f for f, (lo, hi) in o.st.bounds.items() if f.op == "discr" and "pread:header::WzHeader" in sh(f) and f.a[0].op == "fld" and f.a[0].a[1] == ck.fi(H, "ident") and lo == hi == ck.vi(PV, "V1")]
    n = mk("call", "rd:read_wz_int", (seq, D))
    if v1 and o.st.decide(t.le(ONE, n)) is not True:
        return "an entry is looked for although the directory may have none"
    tb = lev(1, False, seq, e)
    tag = o.ctx.I.elem(o.st, seq, e)
    lo, hi = o.st.rng(o.st.simp(tag))
    if not (x.op == "call" and x.a[0] in ("rd:read_wz_string_meta", "rd:read_wz_string_pkg2_dir_meta")):
        raise Undecided("probe %s" % sh(x))
    got = x.a[1][1]
    if lo != hi and x.a[0] == "rd:read_wz_string_meta":
        if o.st.decide(t.eq(tag, Int(2))) is False:
            lo = hi = 3
        else:
            raise Undecided("the entry kind of the probe is not settled")
    if x.a[0] == "rd:read_wz_string_pkg2_dir_meta":
        want = t.add(e, ONE)
    elif lo == 2:
        ref = lev(4, True, seq, t.add(e, ONE))
        t.settype(ref, "i32")
        fs = ZERO if D is ZERO else mk("fld", D.a[0], ck.fi(H, "fstart"))
        want = t.add(t.wrap(t.add(ref, fs), "u64"), ONE)
    elif lo in (3, 4):
        want = t.add(e, ONE)
    else:
        return "a string is taken as probe although the entry's kind is %d" % lo
    if not o.same(got, want):
        return "the probe string of an entry of kind %d is read at %s, expected %s" % (lo, sh(got), sh(want))


def first_name(ck):
    def meta(fn, lab):
        c = ck.ctx(S + fn, opaque=reader_models(ck))
        c.I.opaque[DECR + "is_pkg2"] = lambda k: k.ret(FALSE)
        n = [0]

        def f(o):
            if not o.is_ok():
                return None if o.is_err() else "unrecognised result %s" % sh(o.ret)
            x = bare(o.okval())
            if x.op == "agg":
                if is_variant(x.a[1][ck.fi(META, "string_type")], "Empty"):
                    return None
                raise Undecided("probe %s" % sh(x))
            n[0] += 1
            return probe_at(ck, c, o, x)

        ck.case(lab, c, f)
        if not n[0]:
            ck.bad(lab, c.where(), "no probe is ever found")

    ck.guard("first name", meta, "try_get_first_wz_name_meta", "probe: the first entry's name")
    ck.guard("first pkg2 name", meta, "try_get_first_wz_name_pkg2_meta_from_wz_file", "probe: the first entry's encrypted name")

    def iv():
        op = reader_models(ck)
        for p in ck.prog().bodies:
            if p.path.endswith("::try_resolve_wz_string_meta"):
                op[p.path] = res
        op[ECB + "::from_iv"] = termm("ecb", 0)
        op[DECR + "is_pkg2"] = lambda k: k.ret(FALSE)
        c = ck.ctx(V + "verify_iv_from_wz_file", opaque=op)
        ivs = c.seq(c.a[1])

        def f(o):
            if not o.is_ok():
                return None
            r = evs(o, "resolve")
            if not r:
                return "an iv is accepted without decoding a name"
            k, ty, off, ln = r[0][2]
            es = [y for y in t.atoms(k, lambda y: y.op == "call" and y.a[0] == "ecb")]
            if len(es) != 1 or not at_arg(o, es[0].a[1][0], c, 1):
                return "the probe is decoded with %s, not with the iv in question" % sh(k)
            ms = {y for z in (ty, off, ln) for y in t.atoms(z, lambda y: y.op == "call" and str(y.a[0]).startswith("rd:"))}
            top = [x for x in (ty, off, ln)]
            base = {x.a[0] for x in top if x.op == "fld"}
            if len(base) != 1:
                raise Undecided("probe %s" % sh(off))
            x = base.pop()
            for g, w in ((ty, "string_type"), (off, "offset"), (ln, "length")):
                if g.op != "fld" or g.a[1] != ck.fi(META, w):
                    return "the probe's %s is %s" % (w, sh(g))
            return probe_at(ck, c, o, x)

        ck.case("verify file iv", c, f)

    def res(c):
        root, pth = c.I.target(c.args[0])
        k = c.I.content(c.st, c.I.load(c.st, root, pth + (("f", ck.fi(SR, "keys")),)))
        c.I.event(c.st, "resolve", (k,) + tuple(bare(c.I.content(c.st, a)) for a in c.args[1:]), c.span)
        return [("ret", c.st.fork(), t.ok(mk("call", "text", ()))), ("ret", c.st, t.err(mk("call", "resolve-error", ())))]

    ck.guard("verify file iv", iv)


def detection(ck):
    """V2 files whose key was not verified when opened: derived key, checked on the first name"""

    def go():
        c = c15.setup(ck, "V2", "none")
        op = c.I.opaque
        D = c15.D

        def ver(k):
            v = [("ret", k.st.fork(), TRUE), ("ret", k.st, FALSE)]
            k.I.event(v[0][1], "name-ok", (bare(k.I.content(k.st, k.args[0])),), k.span)
            return v

        op[D + "::verify_string_decryptor"] = ver
        op[F + "::update_keys"] = evm("derive", lambda k, cont: k.ret(UNIT))
        flag = c.I.proj(c.st, c.meta0, ("f", ck.fi(FM, "string_decryptor_verified")))
        t.settype(flag, "bool")
        c.assume(flag, False)

        def f(o):
            if not o.is_ok():
                return None
            tr = [e.r for e in o.st.trace if e.r[0] == "call"]
            ch = [i for i, r in enumerate(tr) if r[1] == "children:ok"]
            if not ch:
                return "accepted although no directory was resolved"
            before = [r for r in tr[: ch[-1]]]
            ok = [i for i, r in enumerate(before) if r[1] == "name-ok"]
            if not ok:
                return "a directory is accepted whose names the derived key was not checked on"
            dv = [i for i, r in enumerate(before) if r[1] == "derive"]
            if not dv:
                return "the key is checked although none was derived for this version"
            if dv[-1] > ok[-1]:
                return "the key is replaced after it was checked"
            return None

        ck.case("V2 file without a verified key", c, f)

    ck.guard("V2 derived key", go)

    def name_check():
        D = c15.D
        VS = "directory::WzDirectoryVerifyStatus"
        E = "directory::WzDirectoryEntry"
        op = {E + "::resolve_name": resm("name")}
        c = ck.ctx(D + "::verify_string_decryptor", opaque=op)
        es = c.fld(c.a[0], ck.fi(D, "entries"))

        def f(o):
            d = o.st.decide(o.ret)
            if d is not False:
                if o.st.decide(t.eq(c.len(es), ZERO)) is True:
                    return None
                if not any(o.st.decide(boolterm("name", e[2])) is True for e in evs(o, "name")):
                    return "the key is accepted without decoding a name"

        ck.case("derived key checked on the first name", c, f)

    ck.guard("derived key check", name_check)
