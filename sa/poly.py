"""Integer terms (polynomials over non-negative symbols) and a small proof procedure for `p >= 0`."""


class P:
    __slots__ = ("t", "h")

    def __init__(self, t):
        self.t = t
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = p(o)
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            c2 = t.get(m, 0) + c
            if c2:
                t[m] = c2
            else:
                t.pop(m, None)
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-p(o))

    def __rsub__(self, o):
        return p(o) - self

    def __mul__(self, o):
        o = p(o)
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mm(m, n)
                v = t.get(k, 0) + c * d
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
        return P(t)

    __rmul__ = __mul__

    def const(self):
        """the value if this is a constant"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def syms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def sym(self):
        """the symbol if this is a single symbol"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def subst(self, sub):
        if not sub or not any(x in sub for m in self.t for x in m):
            return self
        r = P({})
        for m, c in self.t.items():
            q = P({(): c})
            rest = []
            for x in m:
                if x in sub:
                    q = q * sub[x]
                else:
                    rest.append(x)
            if rest:
                q = q * P({tuple(rest): 1})
            r = r + q
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            s = "*".join(m)
            if not m:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%d*%s" % (c, s)
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")


def mm(m, n):
    if not m:
        return n
    if not n:
        return m
    return tuple(sorted(m + n))


def p(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return P({(): x}) if x else P({})
    if isinstance(x, str):
        return P({(x,): 1})
    raise TypeError(repr(x))


ZERO, ONE = p(0), p(1)


def mdiv(m, d):
    """monomial division or None"""
    r = list(m)
    for x in d:
        if x in r:
            r.remove(x)
        else:
            return None
    return tuple(r)


def div_exact(a, d):
    """q with a == q*d, or None"""
    if a == d:
        return ONE
    if len(d.t) == 1:
        (dm, dc), = d.t.items()
        t = {}
        for m, c in a.t.items():
            q = mdiv(m, dm)
            if q is None or c % dc:
                return None
            t[q] = c // dc
        return P(t)
    if not d.t:
        return None
    # polynomial long division by the first monomial
    (dm, dc) = max(d.t.items())
    q, r = P({}), a
    for _ in range(12):
        if not r.t:
            return q
        done = False
        for m, c in sorted(r.t.items(), reverse=True):
            x = mdiv(m, dm)
            if x is not None and c % dc == 0:
                k = P({x: c // dc})
                q = q + k
                r = r - k * d
                done = True
                break
        if not done:
            return None
    return q if not r.t else None


class Index:
    """facts by the monomials they bound from above"""
    __slots__ = ("by", "c")

    def __init__(self, facts):
        by = {}
        for f in facts:
            for fm, fc in f.t.items():
                if fc < 0:
                    by.setdefault(fm, []).append((f, -fc))
        self.by, self.c = by, {}

    def cands(self, m):
        r = self.c.get(m)
        if r is None:
            r = self.c[m] = [(f, k, x) for fm, l in self.by.items() for x in (mdiv(m, fm),) if x is not None for f, k in l]
        return r


def prove(goal, facts, depth=4, seen=None):
    """goal >= 0 from facts (each >= 0) and non-negative symbols. Sound, incomplete."""
    negs = [m for m, c in goal.t.items() if c < 0]
    if not negs:
        return True
    if depth == 0:
        return False
    ix = facts if isinstance(facts, Index) else Index(facts)
    # each negative monomial needs a fact that bounds it
    for m in negs:
        if not ix.cands(m):
            return False
    if seen is None:
        seen = {}
    if seen.get(goal, 0) >= depth:
        return False
    seen[goal] = depth
    # the negative monomial of the largest degree
    m = min(negs, key=lambda m: (-len(m), m))
    c = -goal.t[m]
    for f, k, x in ix.cands(m):
        # subtract c/k * f * x
        t = dict(goal.t) if k == 1 else {y: d * k for y, d in goal.t.items()}
        for y, d in f.t.items():
            y = mm(x, y)
            v = t.get(y, 0) - d * c
            if v:
                t[y] = v
            else:
                t.pop(y, None)
        if len(t) > 14:
            continue
        if depth > 1:
            # a smaller part of f, if all of it takes too much of something else
            u = v = 0
            for y, d in f.t.items():
                if d > 0:
                    g = goal.t.get(mm(x, y), 0)
                    if g > 0 and g * k < d * c and (not v or g * v < u * d):
                        u, v = g, d
            if v:
                w = {y: d * v for y, d in goal.t.items()}
                for y, d in f.t.items():
                    y = mm(x, y)
                    z = w.get(y, 0) - d * u
                    if z:
                        w[y] = z
                    else:
                        w.pop(y, None)
                if len(w) <= 14 and prove(P(w), ix, depth - 1, seen):
                    return True
        if depth == 1:
            if all(d >= 0 for d in t.values()):
                return True
            continue
        if prove(P(t), ix, depth - 1, seen):
            return True
    return False
