"""Directory entries: the verification loop is interpreted over an entry table of any length
and must, on every way round it, have shown the entry's range to lie inside the file, an
image's first byte to be a known header byte and a directory's count to be non-negative; node
creation must come after that loop succeeded; and the entry table readers must accept only
entry counts and kinds of the format and place each field where the format has it."""
from .lib import *
from .grammar import *

FLOOR = 15
D = "directory::WzDirectory"
E = "directory::WzDirectoryEntry"
DT = "directory::WzDirectoryType"
WR = "reader::WzBaseReader"
H = "header::WzHeader"
PV = "util::version::PKGVersion"
OV = "util::offset::WzOffsetVersion"
HEADER_BYTES = {0x73, 0x23, 0x01}


def forks(name, okv=UNIT):
    def m(c):
        c.I.event(c.st, name, tuple(c.args), c.span)
        f = c.st.fork()
        return [("ret", f, t.ok(okv(c) if callable(okv) else okv)), ("ret", c.st, t.err(mk("call", name + "-error", ())))]

    return m


def calc(c):
    v = mk("call", "calculated", tuple(c.I.content(c.st, a) for a in c.args))
    x = mk("call", "offset", (v,))
    t.settype(x, "usize")
    return [("ret", c.st.fork(), t.ok(x)), ("ret", c.st, t.err(mk("call", "calc-error", (v,))))]


def check(ck):
    DI, RI = None, None
    ck.guard("fields", lambda: [ck.fi(D, f) for f in ("reader", "entries", "hash", "offset", "block_size", "profile")] + [ck.fi(E, f) for f in ("name", "dir_type", "size", "calculation_offset", "encrypted_offset", "offset")])
    ef = lambda f: ck.fi(E, f)

    def headers():
        """the set of header bytes the image parser knows"""
        got = set()
        for v in range(256):
            c = ck.ctx("wz_image::is_valid_image_header", args=[Int(v)])
            rs = [o.ret for o in c.run() if o.kind == "ret"]
            if len(rs) != 1 or rs[0].op != "int":
                raise Undecided("header byte %d" % v)
            if rs[0] is TRUE:
                got.add(v)
        return got

    hb = ck.guard("known image header bytes", headers)
    if hb is not None:
        ck.expect("known image header bytes", hb == HEADER_BYTES, "wz_image::is_valid_image_header", "the accepted image header bytes are %s, the format's are %s" % (sorted(hb), sorted(HEADER_BYTES)))

    # ------------------------------------------------------------ the verification loop
    def verify():
        op = {OV + "::get_calculator": lambda c: c.ret(mk("fn", "calc", -1)), "calc": calc}
        op.update(reader_models(ck))
        c = ck.ctx(D + "::calculate_offset_and_verify", opaque=op)
        rp = c.fld(c.a[0], ck.fi(D, "reader"))
        hdr = c.fld(rp, ck.fi(WR, "header"))
        flen = c.len(c.I.content(c.st, c.fld(rp, ck.fi(WR, "map"))))
        seq = c.fld(c.a[0], ck.fi(D, "entries"))
        c.assume(t.le(flen, FARPOS))
        lab = "verification loop"
        outs = c.run()
        ck.funcs |= c.I.inlined
        oks = [o for o in outs if o.kind == "ret" and o.is_ok()]
        if not oks:
            ck.bad(lab, c.where(), "verification never succeeds")
            return
        for o in oks:
            full = visits_all(o, [seq])
            for lp in loops(o):
                # the entries are updated while they are visited: their number is unchanged
                if not full:
                    for phi, init in lp.init.items():
                        if init is ZERO and o.same(phi, c.len(seq)) and all(same_in(b, s, t.add(phi, ONE)) for s, b in zip(lp.steps[phi], lp.backs)):
                            full = [(lp, phi, seq)]
            if not full:
                if not loops(o) and o.st.decide(t.eq(c.len(seq), ZERO)) is not True:
                    ck.bad(lab, c.where(), "verification succeeds without looking at the entries\n    path: " + o.pathdesc())
                    return
                why = misses(o, [seq])
                if why:
                    ck.bad(lab, c.where(), "verification succeeds although %s\n    path: %s" % (why, o.pathdesc()))
                    return
                if loops(o):
                    # a loop that can stop early
                    raise Undecided("the loop over the entries is not recognised as complete")
                continue
            lp, idx, _ = full[0]
            vecs = [p for p, init in lp.init.items() if init is seq]
            kinds = set()
            for b, k in zip(lp.backs, range(len(lp.backs))):
                base = vecs[0] if vecs else seq
                cur = lp.steps[vecs[0]][k] if vecs else seq
                ent = c.I.elem(b, cur, idx)
                old = c.I.elem(b, base, idx)
                off = b.simp(c.I.proj(b, ent, ("f", ef("offset"))))
                size = b.simp(c.I.proj(b, ent, ("f", ef("size"))))
                t.settype(size, "usize")
                dt = c.I.proj(b, old, ("f", ef("dir_type")))
                cs = [y for y in t.atoms(off, lambda y: y.op == "call" and y.a[0] == "calculated")]
                desc = "\n    way round: " + "; ".join("%s in [%s,%s]" % (t.show(f), lo, hi) for f, (lo, hi) in list(b.bounds.items())[-6:])[:600]
                if not cs:
                    ck.bad(lab, c.where(), "the offset stored for an entry is %s, not the calculated one%s" % (sh(off), desc))
                    return
                # arguments of the calculation
                meta = bare(cs[0].a[1][1])
                if not (meta.op == "agg" and meta.a[0][0] == "adt"):
                    raise Undecided("calculator arguments %s" % sh(meta))
                WM = "util::offset::WzOffsetMeta"
                for f, want in (("hash", c.fld(c.a[0], ck.fi(D, "hash"))), ("encrypted_offset", c.I.proj(b, old, ("f", ef("encrypted_offset")))), ("offset", c.I.proj(b, old, ("f", ef("calculation_offset"))))):
                    g = meta.a[1][ck.fi(WM, f)]
                    if not same_in(b, g, want):
                        ck.bad(lab + ": " + f, c.where(), "the calculation gets %s = %s, expected %s%s" % (f, sh(g), sh(want), desc))
                        return
                end = t.add(off, size)
                inside = b.decide(t.le(end, flen))
                if inside is not True:
                    ck.bad(lab + ": range", c.where(), "an entry passes although offset + size = %s is not shown to be inside the file%s" % (sh(end), desc))
                    return
                # the same must hold in machine arithmetic: no wrap-around
                if b.decide(t.le(end, Int((1 << 64) - 1))) is not True:
                    ck.bad(lab + ": range", c.where(), "offset + size may wrap around%s" % desc)
                    return
                dsc = [v for v in ("WzDirectory", "WzImage") if may_be(ck, c, b, dt, v)]
                if "WzImage" in dsc:
                    byte = None
                    fseq = c.I.content(c.st, c.fld(rp, ck.fi(WR, "map")))
                    for q in (mk("at", fseq), fseq):
                        x = lev(1, False, q, off)
                        wrong = [v for v in range(256) if v not in HEADER_BYTES and b.decide(t.eq(x, Int(v))) is not False]
                        if not wrong:
                            byte = x
                            break
                    if byte is None:
                        ck.bad(lab + ": image", c.where(), "an image entry passes although its first byte may be %s%s" % (wrong[:4], desc))
                        return
                    kinds.add("WzImage")
                if "WzDirectory" in dsc:
                    if not count_known(c, b, rp, off, hdr):
                        ck.bad(lab + ": directory", c.where(), "a directory entry passes although the count at its offset may be negative%s" % desc)
                        return
                    kinds.add("WzDirectory")
            for kk in ("WzImage", "WzDirectory"):
                if kk not in kinds:
                    ck.bad(lab + ": " + kk, c.where(), "no entry of kind %s ever passes" % kk)
                    return
        ck.ok(lab, "%d ways round" % sum(len(lp.backs) for o in oks for lp in loops(o)))

    def may_be(ck, c, b, dt, v):
        adt = next((i for i, ty in enumerate(ck.prog().types) if ty.get("k") == "adt" and ty.get("def") == DT), None)
        d = b.simp(c.I.discr(dt, adt))
        val = ck.prog().adts[DT]["variants"]
        vv = {"WzDirectory": 3, "WzImage": 4}[v]
        return b.decide(t.eq(d, Int(vv))) is not False

    def count_known(c, b, rp, off, hdr):
        fseq = c.I.content(c.st, c.fld(rp, ck.fi(WR, "map")))
        for q in (mk("at", fseq), fseq):
            for n, w in (("read_wz_int", False), ("read_wz_int64", True)):
                x = rd(n, q, off)
                t.settype(x, RTYPES[n])
                if b.decide(t.le(ZERO, x)) is True:
                    # the width must be the one of the file's layout
                    return True
        return False

    ck.guard("verification loop", verify)

    # ------------------------------------------------------------ nodes only after verification
    N = "node::WzNode"

    def order():
        def made(name):
            def m(c):
                c.I.event(c.st, "make", tuple(c.I.content(c.st, a) for a in c.args), c.span)
                return c.ret(mk("call", name, tuple(c.I.content(c.st, a) for a in c.args)))

            return m

        op = {
            D + "::prepare_entries": forks("prepare"),
            D + "::calculate_offset_and_verify": forks("verify"),
            E + "::resolve_name": forks("name", lambda c: mk("call", "entry-name", tuple(c.I.content(c.st, a) for a in c.args))),
        }
        for b in ck.prog().bodies:
            if b.path in (N + "::new", N + "::empty") or b.path in ("wz_image::WzImage::new",):
                op[b.path] = made(b.path.split("::")[-2])
        c = ck.ctx(D + "::resolve_children", opaque=op)
        sz = c.fld(c.a[0], ck.fi(D, "block_size"))
        ents = c.fld(c.a[0], ck.fi(D, "entries"))
        outs = c.run()
        ck.funcs |= c.I.inlined
        seen = False
        for o in outs:
            if o.kind != "ret":
                continue
            tr = o.st.trace
            vi = [i for i, e in enumerate(tr) if e.r[0] == "call" and e.r[1] == "verify"]
            pi = [i for i, e in enumerate(tr) if e.r[0] == "call" and e.r[1] == "prepare"]
            makes = [i for i, e in enumerate(tr) if (e.r[0] == "call" and e.r[1] == "make") or (e.r[0] == "loop" and any(x.r[0] == "call" and x.r[1] == "make" for b in e.r[1].backs for x in b.trace))]
            if makes and (not vi or min(makes) < vi[0]):
                ck.bad("nodes after verification", c.where(), "a node is created before the entries are verified\n    path: " + o.pathdesc())
                return
            if vi and (not pi or vi[0] < pi[0]):
                ck.bad("entries before verification", c.where(), "entries are verified before they are read\n    path: " + o.pathdesc())
                return
            if o.is_ok():
                if not vi:
                    if o.st.decide(t.eq(sz, ZERO)) is not True:
                        ck.bad("verification", c.where(), "succeeds without verifying the entries although the directory is not empty\n    path: " + o.pathdesc())
                        return
                else:
                    seen = True
        if not seen:
            ck.bad("verification", c.where(), "no path succeeds after verification")
            return
        ck.ok("nodes after verification")

    def order2(which):
        """a failing step makes the whole directory an error"""

        def fail(c):
            c.I.event(c.st, which, tuple(c.args), c.span)
            return c.ret(t.err(mk("call", which + "-error", ())))

        op = {
            D + "::prepare_entries": lambda c: c.ret(t.ok(UNIT)),
            D + "::calculate_offset_and_verify": lambda c: c.ret(t.ok(UNIT)),
        }
        op[{"prepare": D + "::prepare_entries", "verify": D + "::calculate_offset_and_verify"}[which]] = fail
        c = ck.ctx(D + "::resolve_children", opaque=op)
        c.assume(t.le(ONE, c.fld(c.a[0], ck.fi(D, "block_size"))))
        ck.case("failing " + which, c, want_err)

    ck.guard("nodes after verification", order)
    for w in ("prepare", "verify"):
        ck.guard("failing " + w, order2, w)

    # ------------------------------------------------------------ reading the entry table
    def table(layout):
        op = reader_models(ck)
        op[OV + "::get_entry_count_calculator"] = lambda c: c.ret(mk("fn", "count", -1))

        def count(c):
            n = mk("call", "entry-count", tuple(c.I.content(c.st, a) for a in c.args[2:]))
            t.settype(n, "usize")
            return [("ret", c.st.fork(), t.ok(n)), ("ret", c.st, t.err(mk("call", "count-error", ())))]

        op["count"] = count
        c = ck.ctx(D + "::prepare_entries", opaque=op)
        rp = c.fld(c.a[0], ck.fi(D, "reader"))
        root, pth = c.I.target(rp)
        hp = pth + (("f", ck.fi(WR, "header")),)
        c.I.store(c.st, root, hp + (("f", ck.fi(H, "ident")),), ck.mkenum(PV, "V1" if layout == "V1" else "V2"))
        c.hdr = (root, hp)
        c.file = c.I.content(c.st, c.fld(rp, ck.fi(WR, "map")))
        c.start = c.fld(c.a[0], ck.fi(D, "offset"))
        t.settype(c.start, "usize")
        c.store(c.a[0], (ck.fi(D, "verify_status"),), ck.mkenum("directory::WzDirectoryVerifyStatus", "Init"))
        c.assume(t.le(c.start, FARPOS))
        return c

    def run(layout, assume=None):
        c = table(layout)
        if assume:
            assume(c)
        # 32/64-bit layouts of the second package version differ in a header flag
        if layout != "V1":
            is64 = H + "::is_pkg2_64"
            c.I.opaque[is64] = lambda k: k.ret(TRUE if layout == "V2-64" else FALSE)
        c.I.opaque["util::string_decryptor::Decryptor::is_pkg2"] = lambda k: k.ret(c.pkg2)
        c.pkg2 = mk("sym", "keys-are-pkg2", 0)
        t.settype(c.pkg2, "bool")
        outs = c.run()
        ck.funcs |= c.I.inlined
        return c, outs

    def counts(layout, name, cond, good):
        """no table with a count outside the accepted range is accepted, one inside is"""

        def a(c):
            n = "read_wz_int" if layout == "V1" else "read_wz_int64"
            x = rd(n, c.file, c.start)
            t.settype(x, RTYPES[n])
            if layout == "V2-64":
                x = mk("call", "entry-count", (x,))
                t.settype(x, "usize")
            for f in cond(x):
                c.assume(f)

        c, outs = run(layout, a)
        oks = [o for o in outs if o.kind == "ret" and o.is_ok()]
        lab = "%s count %s" % (layout, name)
        if good:
            ck.expect(lab, bool(oks), c.where(), "a table whose entry count is %s is always refused" % name)
        elif oks:
            ck.bad(lab, c.where(), "a table whose entry count is %s is accepted\n    path: %s" % (name, oks[0].pathdesc()))
        else:
            ck.ok(lab)

    M = Int(1000000)
    for lay in ("V1", "V2-64"):
        if lay == "V1":
            ck.guard("V1 count negative", counts, lay, "negative", lambda x: [t.le(x, Int(-1))], False)
        ck.guard(lay + " count above the limit", counts, lay, "above a million", lambda x: [t.le(t.add(M, ONE), x)], False)
        ck.guard(lay + " count at the limit", counts, lay, "a million", lambda x: [t.eq(x, M)], True)
        ck.guard(lay + " count small", counts, lay, "three", lambda x: [t.eq(x, Int(3))], True)

    def kinds(layout):
        lab = layout + " entries"
        c, outs = run(layout)
        oks = [o for o in outs if o.kind == "ret" and o.is_ok()]
        if not oks:
            ck.bad(lab, c.where(), "no table of this layout is accepted")
            return
        f = c.file
        pushed = set()
        for o in oks:
            ents = o.fld(c.a[0], ck.fi(D, "entries"))
            for lp in loops(o):
                for phi, steps in lp.steps.items():
                    for s, b in zip(steps, lp.backs):
                        for p in pushes(s, phi):
                            if not (p.op == "agg" and p.a[0][:2] == ("adt", E)):
                                continue
                            k = p.a[1][ef("dir_type")]
                            nm = k.a[0][3] if k.op == "agg" else None
                            if nm is None:
                                raise Undecided("kind of a stored entry is %s" % sh(k))
                            if nm not in ("WzDirectory", "WzImage"):
                                ck.bad(lab, c.where(), "an entry of kind %s is accepted" % nm)
                                return
                            m = layout_of(layout, c, o, lp, b, p, nm)
                            if m:
                                ck.bad(lab + " layout", c.where(), m)
                                return
                            pushed.add(nm)
            if not loops(o):
                if ents.op == "empty":
                    continue
                raise Undecided("entries without a loop: %s" % sh(ents))
        if pushed != {"WzDirectory", "WzImage"}:
            if not pushed:
                raise Undecided("no stored entry recognised")
            ck.bad(lab, c.where(), "only %s entries are ever stored" % sorted(pushed))
            return
        ck.ok(lab)

    def pushes(s, phi):
        r = []
        while s.op == "push":
            r.append(s.a[1])
            s = s.a[0]
        return r

    def layout_of(layout, c, o, lp, b, p, kind):
        """the stored fields against the format, from the kind byte on"""
        f = c.file
        name = bare(p.a[1][ef("name")])
        nargs = name.a[1] if name.op == "call" and name.a[0].startswith("rd:") else None
        if nargs is None:
            raise Undecided("name of an entry is %s" % sh(name))
        npos = nargs[1]
        symbol = name.a[0][3:]
        cur = [ph for ph in lp.init if any(y is ph for y in t.atoms(npos, lambda y: y is ph))]
        if not cur:
            raise Undecided("an entry's name is at %s" % sh(npos))
        q = cur[0]
        k = lev(1, False, f, q)
        t.settype(k, "u8")
        ref = b.decide(t.eq(k, Int(2))) is True
        kv = {"WzDirectory": 3, "WzImage": 4}[kind]
        if ref and layout == "V1":
            i = lev(4, True, f, t.add(q, ONE))
            t.settype(i, "i32")
            root, hp = c.hdr
            fs = c.I.load(b, root, hp + (("f", ck.fi(H, "fstart")),))
            far = b.wrap(t.add(fs, i), "u64")
            fk = lev(1, False, f, far)
            if b.decide(t.eq(fk, Int(kv))) is not True:
                return "a referenced entry is stored as %s although the kind at the reference is %s" % (kind, sh(fk))
            wn, after = t.add(far, ONE), t.add(q, Int(5))
        else:
            if b.decide(t.eq(k, Int(kv))) is not True:
                return "an entry is stored as %s although its kind byte is not %d" % (kind, kv)
            wn = t.add(q, ONE)
            after = end(symbol, f, wn)
        if not same_in(b, npos, wn):
            return "an entry's name is read at %s, expected %s" % (sh(npos), sh(wn))
        size = p.a[1][ef("size")]
        ws = b.wrap(rd("read_wz_int", f, after), "u64")
        if not same_in(b, size, ws):
            return "an entry's size is %s, expected %s" % (sh(size), sh(ws))
        a2 = end("read_wz_int", f, end("read_wz_int", f, after))
        if layout == "V1":
            co, eo = p.a[1][ef("calculation_offset")], p.a[1][ef("encrypted_offset")]
            if not same_in(b, co, a2):
                return "an entry's offset position is %s, expected %s" % (sh(co), sh(a2))
            w = lev(4, False, f, a2)
            if not same_in(b, eo, w):
                return "an entry's stored offset is %s, expected %s" % (sh(eo), sh(w))
            nxt = t.add(a2, Int(4))
        else:
            nxt = a2
        j = lp.backs.index(b)
        got = lp.steps[q][j]
        if not same_in(b, got, nxt):
            return "the next entry is read at %s, expected %s" % (sh(got), sh(nxt))
        return None

    for lay in ("V1", "V2-32", "V2-64"):
        ck.guard(lay + " entries", kinds, lay)

    # ------------------------------------------------------------ second layout: offsets after the entries
    def offsets(layout):
        lab = layout + " offsets"
        c, outs = run(layout)
        f = c.file
        seen = 0
        for o in outs:
            if o.kind != "ret" or not o.is_ok():
                continue
            ents = o.st.simp(o.fld(c.a[0], ck.fi(D, "entries")))
            lps = loops(o)
            if len(lps) < 2:
                continue
            n = c.len(ents)
            i = mk("sym", "entry", 0)
            t.settype(i, "usize")
            st = o.st.fork()
            if not st.assume(t.le(t.add(i, ONE), n), True):
                continue
            e, e0 = c.I.elem(st, ents, i), c.I.elem(st, ents, ZERO)
            base = c.I.proj(st, e0, ("f", ef("calculation_offset")))
            co = c.I.proj(st, e, ("f", ef("calculation_offset")))
            eo = c.I.proj(st, e, ("f", ef("encrypted_offset")))
            if any(y.op == "fld" and y.a[1] == ef("calculation_offset") for y in t.atoms(co, lambda y: y.op == "fld")):
                raise Undecided("the offset positions are %s" % sh(co))
            seen += 1
            path = "\n    path: " + o.pathdesc()
            if layout == "V2-32":
                if o.st.decide(t.le(ONE, n)) is not True and not nonempty(c, o, lps[0]):
                    ck.bad(lab + " empty", c.where(), "a table without entries is accepted" + path)
                    return
                cnt0 = rd("read_wz_int", f, c.start)
                if not (base.op == "call" and base.a[0] == "end:read_wz_int"):
                    raise Undecided("the offsets start at %s" % sh(base))
                cnt = mk("call", "rd:read_wz_int", base.a[1])
                if not same_in(st, cnt, cnt0):
                    ck.bad(lab + " count", c.where(), "a table is accepted although the count before the offsets is not shown to be the count before the entries" + path)
                    return
            elif base.op != "phi":
                raise Undecided("the offsets start at %s" % sh(base))
            if not same_in(st, co, t.add(base, t.mulc(i, 4))):
                ck.bad(lab, c.where(), "the offset of entry i is taken to be at %s, expected the i-th word from %s" % (sh(co), sh(base)) + path)
                return
            w = lev(4, False, f, co)
            if not same_in(st, eo, w):
                ck.bad(lab, c.where(), "the stored offset of entry i is %s, expected %s" % (sh(eo), sh(w)) + path)
                return
        if not seen:
            raise Undecided("no accepted table with an offsets loop")
        ck.ok(lab)

    def nonempty(c, o, lp):
        """whether the vector the entry loop fills is shown to have an element"""
        for x in lp.init:
            if lp.init[x].op == "empty" and o.st.decide(t.eq(c.len(x), ZERO)) is False:
                return True
        return False

    for lay in ("V2-32", "V2-64"):
        ck.guard(lay + " offsets", offsets, lay)
