"""The traversal: interpreted with parsing as an event that may fail and replaces the node, the
callback as an event and the recursive call as an event (induction over the tree). Every path must
parse before the callback, call back once with the node, then go to every child of the node as it
is then, exactly once each with the same mode and callback; only afterwards may an image be
cleared, and nothing else."""
from .lib import *
from .c27 import parse_model

FLOOR = 2
N = "node::WzNode"
OT = "object::WzObjectType"
IM = "wz_image::WzImage"
FN = "util::walk::walk_node"


def check(ck):
    for force in (0, 1):
        ck.guard("walk, forced parsing %s" % bool(force), one, ck, force)


def counts_down(o, lp, phi, n):
    """an index that goes from the length down to 0, used one below"""
    return bool(lp.steps[phi]) and same_in(o.st, lp.init[phi], n) and all(same_in(b, s, t.sub(phi, ONE)) for s, b in zip(lp.steps[phi], lp.backs)) and o.same(phi, ZERO)


def calls(trace, pre):
    return [e.r for e in trace if e.r[0] == "call" and e.r[1].startswith(pre)]


def deep_recs(trace):
    n = 0
    for e in trace:
        if e.r[0] == "call" and e.r[1].startswith("rec:"):
            n += 1
        elif e.r[0] == "loop":
            n += sum(deep_recs(b.trace) for b in e.r[1].backs)
    return n


def one(ck, force):
    c = ck.ctx(FN, opaque={N + "::parse": parse_model})
    c.assume(c.a[1], bool(force))
    CH, OB = ck.fi(N, "children"), ck.fi(N, "object_type")
    PARSED = ck.fi(IM, "is_parsed")
    image = ck.vi(OT, "Image")
    node = c.seq(c.a[0])

    def fld(st, f):
        return c.I.load(st, mk("deref", bare(node)), (("f", 0), ("f", f)))

    def content(st):
        return c.I.load(st, mk("deref", bare(node)), (("f", 0),))

    n0 = content(c.st)

    def is_child(x, ch, i, cnt):
        x = bare(x)
        if x.op == "val":
            x = bare(x.a[0])
        key = lambda j: c.I.proj(c.st, mk("elem", entries(ch), j), ("f", 0))
        return [j for j in (i, t.sub(t.sub(cnt, ONE), i), t.sub(i, ONE)) if x is mk("mapget", ch, key(j)) or same_in(c.st, x, mk("mapget", ch, key(j)))]

    def f(o):
        ps = calls(o.st.trace, "parsed") + calls(o.st.trace, "unparsable")
        cb = calls(o.st.trace, "callback")
        order = [e.r for e in o.st.trace]
        at = lambda r: [i for i, x in enumerate(order) if x is r][0]
        if not force and ps:
            return "the node is parsed although parsing was not asked for"
        if force and len(ps) != 1:
            return "the node is parsed %d times" % len(ps)
        if force and ps[0][2][0] is not n0:
            return "the node parsed is not the one walked"
        inl = sum(len(calls(b.trace, "callback")) for lp in loops(o) for b in lp.backs)
        if len(cb) == 1 and inl:
            return "the callback runs for other nodes besides the walks over them"
        if len(cb) != 1:
            inl = sum(len(calls(b.trace, "callback")) for lp in loops(o) for b in lp.backs)
            return "the callback is called %s times for the node" % (len(cb) if not inl else "%d times and again in a loop" % len(cb))
        if not any(bare(x) is bare(c.a[0]) for x in cb[0][2]):
            return "the callback gets %s, not the node" % sh(cb[0][2])
        if force and at(cb[0]) < at(ps[0]):
            return "the callback runs before the node is parsed"
        cur = n0
        if force and ps[0][1] == "parsed":
            cur = mk("call", "parsed-node", (n0,))
        ch = c.I.proj(o.st, cur, ("f", CH))
        cnt = c.I.seqlen(entries(ch))
        if calls(o.st.trace, "rec:"):
            raise Undecided("a child is walked outside of a loop")
        # the loop that walks
        walkers = [lp for lp in loops(o) if any(deep_recs(b.trace) for b in lp.backs)]
        if not walkers:
            if o.st.decide(t.eq(cnt, ZERO)) is True:
                return clear(o, cur)
            return "the children are not walked"
        if len(walkers) > 1:
            raise Undecided("several loops walk nodes")
        lp = walkers[0]
        if at([r for r in order if r[0] == "loop" and r[1] is lp][0]) < at(cb[0]):
            return "children are walked before the callback"
        idx = [phi for l, phi, _ in visits_all(o, [entries(ch)]) if l is lp] + [phi for phi in lp.init if counts_down(o, lp, phi, cnt)]
        if not idx:
            m = misses(o, [entries(ch)])
            if m:
                return "children are left out: " + m
        for b in lp.backs:
            rs = calls(b.trace, "rec:")
            if deep_recs(b.trace) != len(rs):
                raise Undecided("a nested loop walks nodes")
            if not rs:
                return "a child may be passed over: nothing is walked when " + "; ".join("%s in %s" % (sh(x), r) for x, r in list(b.bounds.items())[-3:])
            if len(rs) > 1:
                return "%d nodes are walked for one child" % len(rs)
            args = [bare(x) for x in rs[0][2]]
            kids = [(x, i) for x in args for i in (idx or [p for p in lp.init]) if is_child(x, ch, i, cnt)]
            if not kids:
                if args and any(x is bare(c.a[0]) for x in args):
                    return "the walk starts over at the same node"
                for x in args:
                    m = left_out(o, x) or stale(o, x, ch)
                    if m:
                        return m
                raise Undecided("the node walked is %s" % sh(rs[0][2]))
            rest = [x for x in args if x is not kids[0][0]]
            if not any(x is bare(c.a[2]) for x in rest):
                return "the children are walked with another callback"
            flags = [x for x in rest if x is bare(c.a[1]) or (x.op == "int" and x.a[0] == force) or same_in(b, x, Int(force))]
            if not flags:
                return "the children are walked with another parse mode: %s" % sh(rest)
            if len(rest) > 2:
                raise Undecided("further arguments of the walk: %s" % sh(rs[0][2]))
            # nothing is released while children are still to come
            if not same_in(b, fld(b, CH), ch):
                return "the children of the node are changed before they are all visited"
        if not idx:
            raise Undecided("how often the loop over the children runs")
        return clear(o, cur)

    def left_out(o, x):
        """the node comes from a list that not every child was put into"""
        while x.op in ("at", "val"):
            x = x.a[0]
        if x.op != "elem":
            return None
        for lp in loops(o):
            v = x.a[0]
            if v in lp.init and lp.init[v].op == "empty":
                for s, b in zip(lp.steps[v], lp.backs):
                    if same_in(b, s, v):
                        return "a child may be left out of the list of nodes to walk: when " + "; ".join("%s in %s" % (sh(y), r) for y, r in list(b.bounds.items())[-2:])
                    for e in b.trace:
                        if e.r[0] != "loop" or not s.op == "push":
                            continue
                        for k in lp.init:
                            for j, j0 in e.r[1].init.items():
                                if same_in(b, j0, k) and any(z is j for q in lp.steps[k] for z in t.atoms(q, lambda z: z is j)) and all(same_in(b2, q, t.add(j, ONE)) for q, b2 in zip(e.r[1].steps[j], e.r[1].backs)):
                                    return "children are passed over while the list of nodes to walk is made"
        return None

    def stale(o, x, ch):
        while x.op in ("at", "val"):
            x = x.a[0]
        old = c.I.proj(o.st, n0, ("f", CH))
        if x.op == "mapget" and x.a[0] is old and old is not ch:
            return "the nodes walked are the children from before the node was parsed"
        return None

    def clear(o, cur):
        """what the node is at the end"""
        ob = c.I.proj(o.st, cur, ("f", OB))
        isimg = o.st.decide(t.eq(mk("discr", ob) if ob.op != "agg" else Int(ob.a[0][2]), Int(image)))
        end = content(o.st)
        ch1 = fld(o.st, CH)
        emptied = ch1.op in ("empty", "mapempty") or o.st.decide(t.eq(c.I.seqlen(entries(ch1)), ZERO)) is True
        same = bare(end) is bare(cur) or same_in(o.st, end, cur)
        if not force or isimg is False:
            if not same and not same_in(o.st, ch1, c.I.proj(o.st, cur, ("f", CH))):
                return "the children of a node that is not an image parsed by the walk are dropped"
            if not same:
                return "the node is changed: %s" % sh(end)
            return None
        if isimg is None:
            if same:
                return "an image is not released on a path that does not rule out images"
            raise Undecided("the node is changed without knowing what it is")
        if same:
            was = o.st.simp(c.I.proj(o.st, boxed(c, o.st, c.I.proj(o.st, n0, ("f", OB)), image), ("f", PARSED)))
            if o.st.decide(t.eq(was, ONE)) is True:
                return None
            return "the image parsed by the walk is not released"
        if not emptied:
            return "the children of the image are kept: %s" % sh(ch1)
        flag = boxed(c, o.st, fld(o.st, OB), image)
        flag = c.I.proj(o.st, flag, ("f", PARSED))
        if not same_in(o.st, flag, ZERO):
            return "the released image still counts as parsed: %s" % sh(flag)

    ck.case("walk, forced parsing %s" % bool(force), c, f)
