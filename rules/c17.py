"""Version, key and profile tables: every table function is interpreted for every row (every
variant of its enum argument) and the rows are compared with each other and with the
format's published keys and profile pairings."""
from .lib import *

FLOOR = 60
VM = "util::version"
MV = VM + "::WzMapleVersion"
SD = "util::string_decryptor"
DT = SD + "::DecrypterType"
ECB = SD + "::ecb_decryptor::EcbDecryptor"
P2 = SD + "::pkg2_decryptor::Pkg2Decryptor"
PF = "util::profile"
VG = VM + "::pkg2::Pkg2VersionGen"
IV = {"GMS": (0x4D, 0x23, 0xC7, 0x2B), "EMS": (0xB9, 0x7D, 0x63, 0xE9)}
KEY = {"KMST1198": 0xDEADBEEF, "KMST1199": 0x6D4C3B2A}
# profile -> key kind, hash family, offset formula
PROFILE = {
    "Pkg2V1202": ("KMST1202", "V6", "Pkg2_64V1"),
    "Pkg2V1201": ("KMST1199", "V4", "Pkg2V3"),
    "Pkg2V1200": ("KMST1199", "V5", "Pkg2V3"),
    "Pkg2V1199": ("KMST1199", "V4", "Pkg2V3"),
    "Pkg2V1198": ("KMST1198", "V3", "Pkg2V2"),
    "Pkg2V1197": ("Unknown", "V2", "Pkg2V2"),
    "Pkg2V1196": ("Unknown", "V1", "Pkg2V1"),
}


def vname(x):
    return x.a[0][3] if x.op == "agg" and x.a[0][0] == "adt" else None


def variants(ck, adt):
    a = ck.prog().adts.get(adt)
    if a is None:
        raise Missing("type " + adt)
    return [v["name"] for v in a["variants"]]


def single(c, what):
    outs = [o for o in c.run() if o.kind == "ret"]
    c.ck.funcs |= c.I.inlined
    if len(outs) != 1:
        raise Undecided("%s has %d outcomes" % (what, len(outs)))
    return outs[0]


def ints(o, arr):
    x = o.content(arr)
    if x.op == "agg" and x.a[0] == ("array",) and all(y.op == "int" for y in x.a[1]):
        return tuple(y.a[0] for y in x.a[1])
    return None


KEYED = {
    ECB + "::from_iv": lambda c: c.ret(mk("call", "ecb-state", (c.args[0],))),
    P2 + "::new_with_key": lambda c: c.ret(mk("call", "pkg2-state", (c.args[0], c.args[1]))),
}


def find_call(x, names):
    return next(iter(t.atoms(x, lambda y: y.op == "call" and y.a[0] in names)), None)


def states(ck):
    """shared state -> the key it was created with, from the initialiser of the global table"""
    b = [b for b in ck.prog().bodies if b.path == SD + "::GLOBAL_STRING_DECRYPTOR::{closure#0}"]
    if not b:
        raise Missing("initialiser of the shared key states")
    c = ck.ctx(b[0], opaque=KEYED)
    o = single(c, "the initialiser")
    res = {}
    S = SD + "::StringDecryptor"
    for f in ("gms", "kms", "general", "kmst1198"):
        i = ck.fi(S, f)
        p = c.I.proj(o.st, o.ret, ("f", i))
        v = o.st.deep(o.content(p)) if p.op == "ref" else p
        call = find_call(v, ("ecb-state", "pkg2-state"))
        if call is None:
            # built in place: read the key field of the state
            raise Undecided("state %s is created as %s" % (f, sh(v)))
        if call.a[0] == "ecb-state":
            k = ints(o, call.a[1][0])
            res[i] = ("iv", k)
        else:
            a, e = call.a[1]
            res[i] = ("key", a.a[0] if a.op == "int" else None, vname(e))
    return res


def field_of(o):
    """index of the shared state the returned handle is a clone of, or 'new'"""
    r = o.ret
    if r.op == "fld" and r.a[0].op == "val":
        return r.a[1]
    if r.op == "ref":
        return "new"
    raise Undecided("the handle is %s" % sh(r))


def check(ck):
    iv = {}
    key = {}

    def rows():
        for v in variants(ck, MV):
            def one(v=v):
                c = ck.ctx(VM + "::get_iv_by_maple_version", args=[ck.mkenum(MV, v)])
                o = single(c, "iv of " + v)
                iv[v] = ints(o, o.ret)
                if iv[v] is None:
                    raise Undecided("iv of %s is %s" % (v, sh(o.ret)))
                want = IV.get(v, (0, 0, 0, 0))
                ck.expect("iv of " + v, iv[v] == want, c.where(), "the iv of %s is %s, the format's is %s" % (v, iv[v], want))
                c = ck.ctx(VM + "::get_key_by_maple_version", args=[ck.mkenum(MV, v)])
                o = single(c, "key of " + v)
                if o.ret.op != "int":
                    raise Undecided("key of %s is %s" % (v, sh(o.ret)))
                key[v] = o.ret.a[0]
                want = KEY.get(v, 0)
                ck.expect("key of " + v, key[v] == want, c.where(), "the key of %s is %#x, the format's is %#x" % (v, key[v], want))

            ck.guard("row " + v, one)

    ck.guard("key rows", rows)

    st = {}
    ck.guard("shared states", lambda: st.update(states(ck)))
    S = SD + "::StringDecryptor::"

    def kind(i, c, o):
        """('iv', bytes) or ('key', n, type) of a returned state"""
        if i == "new":
            v = o.st.deep(o.content(o.ret))
            call = find_call(v, ("ecb-state", "pkg2-state"))
            if call is not None and call.a[0] == "ecb-state":
                return ("iv", ints(o, call.a[1][0]) or call.a[1][0])
            return ("new", v)
        if i not in st:
            raise Undecided("state %s unknown" % i)
        return st[i]

    def by_version(v):
        c = ck.ctx(S + "get_decryptor_by_version", args=[None, ck.mkenum(MV, v)], opaque=KEYED)
        o = single(c, "state of " + v)
        i = field_of(o)
        k = kind(i, c, o)
        lab = "state of version " + v
        if v in ("KMST1198",):
            ck.expect(lab, k == ("key", key.get(v), "KMST1198"), c.where(), "version %s reaches the state keyed %s" % (v, k))
        elif v == "KMST1199":
            # the 1199 key depends on the file: never a shared state
            ck.expect(lab, i == "new" and vname_enc(o, c) == "KMST1199", c.where(), "version %s reaches the shared state %s" % (v, i))
        else:
            ck.expect(lab, i != "new" and k == ("iv", iv.get(v)), c.where(), "version %s has iv %s but reaches the state of %s" % (v, iv.get(v), k))

    def vname_enc(o, c):
        v = o.st.deep(o.content(o.ret))
        a = next(iter(t.atoms(v, lambda y: y.op == "agg" and y.a[0][0] == "adt" and y.a[0][1] == P2)), None)
        if a is None:
            raise Undecided("new state is %s" % sh(v))
        return vname(a.a[1][ck.fi(P2, "enc_type")])

    for v in ("GMS", "EMS", "BMS", "CLASSIC", "GENERATE", "GETFROMZLZ", "CUSTOM", "UNKNOWN", "KMST1198", "KMST1199"):
        ck.guard("state of version " + v, by_version, v)

    def by_type(d):
        c = ck.ctx(S + "get_decryptor", args=[None, ck.mkenum(DT, d)], opaque=KEYED)
        o = single(c, "state of type " + d)
        i = field_of(o)
        k = kind(i, c, o)
        lab = "state of key kind " + d
        want = {"GMS": ("iv", IV["GMS"]), "KMS": ("iv", IV["EMS"]), "KMST1198": ("key", KEY["KMST1198"], "KMST1198")}
        if d in ("KMST1199", "KMST1202"):
            ck.expect(lab, i == "new", c.where(), "key kind %s, whose key belongs to one file, reaches the shared state %s" % (d, k))
        else:
            w = want.get(d, ("iv", (0, 0, 0, 0)))
            ck.expect(lab, i != "new" and k == w, c.where(), "key kind %s reaches the state of %s, expected %s" % (d, k, w))
        c = ck.ctx(DT + "::need_init_key")
        c.store(c.a[0], (), ck.mkenum(DT, d))
        o = single(c, "need_init_key")
        ck.expect("per-file key of kind " + d, o.ret is (TRUE if d in ("KMST1199", "KMST1202") else FALSE), c.where(), "need_init_key of %s is %s but the state is %s" % (d, sh(o.ret), i))

    for d in ("BMS", "GMS", "KMS", "KMST1198", "KMST1199", "KMST1202", "Unknown"):
        ck.guard("state of key kind " + d, by_type, d)

    def by_iv(case):
        if case == "other":
            c = ck.ctx(S + "get_decryptor_by_iv", opaque=KEYED)
            known = list(IV.values()) + [(0, 0, 0, 0)]

            def exp(o):
                i = field_of(o)
                if i == "new":
                    k = kind(i, c, o)
                    if k[0] != "iv":
                        raise Undecided("new state is %s" % sh(k[1]))
                    el = [c.I.proj(o.st, k[1], ("i", Int(n))) for n in range(4)] if not isinstance(k[1], tuple) else [Int(n) for n in k[1]]
                    for n in range(4):
                        if not o.same(el[n], c.I.proj(o.st, c.a[1], ("i", Int(n)))):
                            raise Undecided("byte %d of the new state's iv is %s" % (n, sh(el[n])))
                    return None
                k = kind(i, c, o)
                if k[0] != "iv":
                    return "an iv reaches the state %s" % (k,)
                for n in range(4):
                    e = c.I.proj(o.st, c.a[1], ("i", Int(n)))
                    if not o.same(e, Int(k[1][n])):
                        return "an iv other than %s reaches the state of that iv (byte %d)" % (k[1], n)

            ck.case("state of any iv", c, exp)
            return
        c = ck.ctx(S + "get_decryptor_by_iv", args=[None, t.array([Int(b) for b in case])], opaque=KEYED)
        o = single(c, "state of iv")
        i = field_of(o)
        ck.expect("state of iv %s" % (case,), i != "new" and st.get(i) == ("iv", case), c.where(), "iv %s reaches the state of %s" % (case, st.get(i, i)))

    for case in list(IV.values()) + [(0, 0, 0, 0)]:
        ck.guard("state of iv %s" % (case,), by_iv, case)
    ck.guard("state of any iv", by_iv, "other")

    # ------------------------------------------------------------ profiles
    PR = PF + "::WzProfile"

    def profiles():
        c = ck.ctx(PF + "::get_all_pkg2_profiles")
        o = single(c, "profile table")
        x = o.content(o.ret)
        if not (x.op == "agg" and x.a[0] == ("array",)):
            raise Undecided("profile table is %s" % sh(x))
        seen = {}
        for e in x.a[1]:
            if e.op != "agg" or e.a[0][1] != PR:
                raise Undecided("profile row %s" % sh(e))
            row = {f: vname(e.a[1][ck.fi(PR, f)]) for f in ("name", "decryptor_type", "version_gen", "offset_version")}
            seen[row["name"]] = (row["decryptor_type"], row["version_gen"], row["offset_version"])
        for n, want in PROFILE.items():
            ck.expect("profile " + n, seen.get(n) == want, c.where(), "profile %s pairs %s, the format pairs %s" % (n, seen.get(n), want))
        for n in seen:
            if n in PROFILE:
                flag64(n, seen[n])
        ck.expect("profile rows", len(x.a[1]) == len(seen) and set(seen) == set(PROFILE), c.where(), "profile rows are %s" % sorted(seen))

    def flag64(n, row):
        c = ck.ctx(PR + "::should_be_pkg2_64")
        names = ("name", "decryptor_type", "version_gen", "offset_version")
        vals = dict(zip(names, (n,) + row))
        ty = {"name": PF + "::WzProfileVersion", "decryptor_type": DT, "version_gen": VG, "offset_version": "util::offset::WzOffsetVersion"}
        for f in names:
            c.store(c.a[0], (ck.fi(PR, f),), ck.mkenum(ty[f], vals[f]))
        o = single(c, "should_be_pkg2_64")
        want = row[1] == "V6"
        ck.expect("64 bit flag of " + n, o.ret is (TRUE if want else FALSE), c.where(), "profile %s with hash family %s says 64 bit = %s" % (n, row[1], sh(o.ret)))

    ck.guard("profiles", profiles)

    def default():
        c = ck.ctx("<%s as std::default::Default>::default" % PR)
        o = single(c, "default profile")
        row = tuple(vname(o.ret.a[1][ck.fi(PR, f)]) for f in ("name", "decryptor_type", "version_gen", "offset_version"))
        ck.expect("default profile", row == ("Pkg1", "Unknown", "Unknown", "Pkg1"), c.where(), "the default profile is %s" % (row,))

    ck.guard("default profile", default)

    # ------------------------------------------------------------ hash families
    def family(v):
        c = ck.ctx(VG + "::is_u64_hash")
        c.store(c.a[0], (), ck.mkenum(VG, v))
        o = single(c, "is_u64_hash")
        ck.expect("width of family " + v, o.ret is (TRUE if v == "V6" else FALSE), c.where(), "family %s says 64 bit = %s" % (v, sh(o.ret)))
        fn = "get_generator_u64" if v == "V6" else "get_generator"
        ty = "u64" if v == "V6" else "u32"
        c = ck.ctx(VG + "::" + fn)
        c.store(c.a[0], (), ck.mkenum(VG, v))
        o = single(c, fn)
        x = o.st.deep(o.content(o.ret)) if o.ret.op == "ref" else o.ret
        while x.op == "at":
            x = x.a[0]
        g = x if x.op == "agg" else None
        if g is None:
            raise Undecided("generator of %s is %s" % (v, sh(x)))
        name = g.a[0][1].rsplit("::", 1)[-1]
        ck.expect("generator of family " + v, name == "Pkg2VersionGen" + v, c.where(), "family %s is generated by %s" % (v, name))
        for n, f in enumerate(("hash1", "hash2")):
            i = ck.fi(VG + v, f)
            w = c.a[n + 1] if v == "V6" else t.wrap(c.a[n + 1], "u32")
            t.settype(c.a[n + 1], "u64")
            ck.expect("generator of family %s:%s" % (v, f), o.same(g.a[1][i], w), c.where(), "%s of the generator of %s is %s" % (f, v, sh(g.a[1][i])))
        # its verifier
        c = ck.ctx("<%s%s as %s::pkg2::VersionGenerator<%s>>::get_verifier" % (VG, v, VM, ty))
        o = single(c, "get_verifier")
        x = o.st.deep(o.content(o.ret)) if o.ret.op == "ref" else o.ret
        while x.op == "at":
            x = x.a[0]
        if x.op != "fn":
            raise Undecided("verifier is %s" % sh(x))
        ck.expect("verifier of family " + v, x.a[0] == VG + v + "::verify_hash", c.where(), "family %s is verified by %s" % (v, x.a[0]))

    for v in ("V1", "V2", "V3", "V4", "V5", "V6"):
        ck.guard("family " + v, family, v)

    def cached(v):
        PP = PF + "::Pkg2Profile"
        c = ck.ctx(PP + "::verify_hash")
        pi = ck.fi(PP, "profile")
        c.store(c.a[0], (pi, ck.fi(PR, "version_gen")), ck.mkenum(VG, v))
        h = c.fld(c.a[0], ck.fi(PP, "hash"))
        for x in (c.a[1], c.a[2], h):
            t.settype(x, "u64")
        z = (lambda x: x) if v == "V6" else (lambda x: t.wrap(x, "u32"))
        o2 = single(ck.ctx(VG + v + "::verify_hash", args=[z(c.a[1]), z(c.a[2]), z(h)]), "the verifier")
        others = {}
        for w in ("V1", "V2", "V3", "V4", "V5"):
            if w != v and v != "V6":
                others[w] = single(ck.ctx(VG + w + "::verify_hash", args=[z(c.a[1]), z(c.a[2]), z(h)]), "the verifier").ret

        def exp(o):
            if o.same(o.ret, o2.ret):
                return None
            for w, r in others.items():
                if o.same(o.ret, r):
                    return "a cached profile of family %s is verified by the formula of %s" % (v, w)
            return want_eq(o, o.ret, o2.ret, "verdict")

        ck.case("cached profile of family " + v, c, exp)

    for v in ("V1", "V2", "V3", "V4", "V5", "V6"):
        ck.guard("cached profile of family " + v, cached, v)
    OVT = "util::offset::WzOffsetVersion"

    def count():
        c = ck.ctx(OVT + "::get_entry_count_calculator")
        c.store(c.a[0], (), ck.mkenum(OVT, "Pkg2_64V1"))
        o = single(c, "count calculator")
        ck.expect("entry count of Pkg2_64V1", o.ret.op == "fn", c.where(), "no entry count formula")

    ck.guard("entry count", count)
