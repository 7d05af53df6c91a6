"""Linear facts of a path taken together (the state's own decisions look at them one at a time)."""
from . import terms as t
from .engine import INF


def rows(st):
    """the facts of a path as rows  sum(coeff * atom) + const <= 0"""
    r = []
    atoms = set()
    for f, (lo, hi) in st.bounds.items():
        c, d = t.aslin(f)
        if not d:
            continue
        atoms |= set(d)
        if hi != INF:
            r.append((dict(d), c - hi))
        if lo != -INF:
            r.append(({x: -v for x, v in d.items()}, lo - c))
    todo = list(atoms)
    while todo:
        x = todo.pop()
        if x.op == "div" and x.a[1].op == "int" and x.a[1].a[0] > 0 and t.rng(x.a[0])[0] >= 0:
            k, (c, d) = x.a[1].a[0], t.aslin(x.a[0])
            lo = dict(d)
            lo[x] = lo.get(x, 0) - k
            r.append((lo, c - (k - 1)))
            r.append(({y: -v for y, v in lo.items()}, -c))
            todo += [y for y in d if y not in atoms]
            atoms |= set(d)
    for x in atoms:
        lo, hi = t.rng(x)
        if hi != INF:
            r.append(({x: 1}, -hi))
        if lo != -INF:
            r.append(({x: -1}, lo))
    return r


def contradiction(st, limit=400):
    """do the facts exclude one another (over the rationals)?"""
    rs = rows(st)
    seen = set()

    def norm(d, c):
        return frozenset(d.items()), c

    while True:
        out = []
        best = {}
        for d, c in rs:
            d = {x: v for x, v in d.items() if v}
            if not d:
                if c > 0:
                    return True
                continue
            from math import gcd
            g = 0
            for v in d.values():
                g = gcd(g, abs(v))
            d = {x: v // g for x, v in d.items()}
            c = -((-c) // g)
            k = frozenset(d.items())
            if k not in best or best[k] < c:
                best[k] = c
        rs = [(dict(k), c) for k, c in best.items()]
        if not rs:
            return False
        pos, neg = {}, {}
        for d, c in rs:
            for x, v in d.items():
                (pos if v > 0 else neg).setdefault(x, []).append((d, c))
        # an equality that gives an atom by the others is used to replace it
        eq = None
        for d, c in rs:
            if best.get(frozenset((y, -v) for y, v in d.items())) == -c:
                xs = [y for y, v in d.items() if abs(v) == 1]
                if xs:
                    eq = (min(xs, key=lambda y: y.id), d, c)
                    break
        if eq:
            x, e, ec = eq
            s = -e[x]  # x = s * (e - e[x] x + ec)
            out = []
            for d, c in rs:
                k = d.get(x)
                if k:
                    d = dict(d)
                    d.pop(x)
                    for y, v in e.items():
                        if y is not x:
                            d[y] = d.get(y, 0) + k * s * v
                    c = c + k * s * ec
                out.append((d, c))
            rs = out
            continue
        every = set(pos) | set(neg)
        x = min(every, key=lambda y: (len(pos.get(y, ())) * len(neg.get(y, ())) - len(pos.get(y, ())) - len(neg.get(y, ())), y.id))
        keep = [(d, c) for d, c in rs if x not in d]
        for d1, c1 in pos.get(x, ()):
            for d2, c2 in neg.get(x, ()):
                a, b = d1[x], -d2[x]
                d = {}
                for y, v in d1.items():
                    d[y] = d.get(y, 0) + v * b
                for y, v in d2.items():
                    d[y] = d.get(y, 0) + v * a
                d.pop(x, None)
                keep.append((d, c1 * b + c2 * a))
        if len(keep) > limit:
            return False
        rs = keep


def implied(st, cond):
    """True when the facts of the path force cond"""
    d = st.decide(cond)
    if d is not None:
        return d
    s = st.fork()
    if not s.assume(cond, False) or contradiction(s):
        return True
    s = st.fork()
    if not s.assume(cond, True) or contradiction(s):
        return False
    return None
