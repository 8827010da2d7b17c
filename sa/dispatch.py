"""Dispatch over alignments: switches that map 1, 2, 4, ... to code for a type of that size and alignment."""
import re

LIMIT = 29          # the compiler accepts alignments up to 2^29
STACK = 13          # documented limit for operations that keep elements on the stack
ROTATE = re.compile(r"::rotate_(left|right)\b")


def succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "call":
        return [x for x in (t[4], t[5]) if isinstance(x, int)]
    if k == "drop":
        return [x for x in (t[2], t[3]) if isinstance(x, int)]
    if k == "assert":
        return [x for x in (t[3], t[4]) if isinstance(x, int)]
    return []


def reach(body, b):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += succ(body["blocks"][x][1])
    return seen


def is_dispatch(arms):
    al = [x for x, _ in arms]
    return len(al) >= 8 and all(x > 0 and x & (x - 1) == 0 for x in al) and 8 in al


class Dispatch:
    def __init__(self, tys, body, bb):
        self.tys, self.s, self.body, self.bb = tys, tys.s, body, bb
        t = body["blocks"][bb][1]
        self.arms, self.default = t[2], t[3]
        self.span = t[5] if len(t) > 5 and isinstance(t[5], str) else ""
        n = {}
        for b in {b for _, b in self.arms}:
            for x in reach(body, b):
                n[x] = n.get(x, 0) + 1
        self.shared = {x for x, k in n.items() if k > 1}
        self.canon = {}
        for k, b in self.arms:
            self.canon[k] = Canon(self, k).run(b)
        by = {}
        for k, c in self.canon.items():
            by.setdefault(c, []).append(k)
        main = max(by.values(), key=len)
        if len(main) == 1:
            main = []
        self.main = sorted(main)
        self.odd = sorted(k for k in self.canon if k not in main)
        self.rep = (8 if 8 in main else main[0]) if main else None
        self.calls = sorted({c for k, b in self.arms for c in self.callees(b)})

    def region(self, b):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen or x in self.shared:
                continue
            seen.add(x)
            todo += succ(self.body["blocks"][x][1])
        return seen

    def callees(self, b):
        for x in self.region(b):
            t = self.body["blocks"][x][1]
            if t[0] == "call" and isinstance(t[7], int):
                y = self.tys.k(t[7])
                if y["k"] == "fndef":
                    yield y["path"]

    def stack(self):
        """the code of an arm rotates a slice of elements"""
        seen, todo = set(), []
        for k, b in self.arms[:1]:
            for x in self.region(b):
                t = self.body["blocks"][x][1]
                if t[0] == "call" and isinstance(t[7], int):
                    todo.append(self.tys.k(t[7]).get("inst"))
        for _ in range(200):
            if not todo:
                return False
            i = todo.pop()
            if i is None or i in seen:
                continue
            seen.add(i)
            if ROTATE.search(self.s.insts[i]["path"]) and not self.s.insts[i].get("local"):
                return True
            if not self.s.insts[i].get("local"):
                continue
            b = self.s.body(i)
            for st, t, *_ in (b["blocks"] if b else ()):
                if t[0] == "call" and isinstance(t[7], int):
                    y = self.tys.k(t[7])
                    todo.append(y.get("inst"))
                    for a in t[8] if isinstance(t[8], list) else ():
                        z = self.tys.k(a)
                        if z["k"] == "closure" and z.get("inst") is not None:
                            todo.append(z["inst"])
        return False

    def diverges(self):
        """no path from the default arm goes on"""
        seen, todo = set(), [self.default]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            t = self.body["blocks"][x][1]
            if t[0] == "ret":
                return False
            if x in self.shared and not self.body["blocks"][x][2]:
                return False
            todo += [y for y in succ(t) if not self.body["blocks"][y][2]]
        return True


class Canon:
    """an arm's code, up to the names of locals and blocks and the type of the arm"""
    def __init__(self, d, k):
        self.d, self.k = d, k
        self.loc, self.blk = {}, {}
        self.name = None

    def run(self, b):
        d = self.d
        ids = set()
        for x in d.region(b):
            t = d.body["blocks"][x][1]
            if t[0] == "call" and isinstance(t[7], int):
                ids |= {a for a in (d.tys.k(t[7]).get("args") or []) if isinstance(a, int)}
        cand = set()
        for i in ids:
            y = d.tys.k(i)
            if y["k"] == "adt" and y.get("local") and d.tys.conc_size(i) == (self.k, self.k):
                cand.add(y["s"])
        if len(cand) == 1:
            self.name = re.compile(r"\b%s\b" % re.escape(cand.pop()))
        out = []
        todo = [b]
        if b in d.shared:
            return ("to", b)
        self.block(b)
        done = 0
        order = [b]
        while done < len(order):
            x = order[done]
            done += 1
            st, t = d.body["blocks"][x][:2]
            for s in st:
                if s[0] in ("live", "dead"):
                    continue
                out.append(self.walk(s))
            out.append(self.term(t, order))
        return tuple(out)

    def block(self, b, order=None):
        if not isinstance(b, int):
            return b
        if b in self.d.shared:
            return ("to", b)
        if b not in self.blk:
            self.blk[b] = len(self.blk)
            if order is not None:
                order.append(b)
        return ("b", self.blk[b])

    def ty(self, i):
        s = self.d.tys.k(i)["s"]
        return self.name.sub("@", s) if self.name else s

    def local(self, i):
        if i <= self.d.body["argc"]:
            return ("a", i)
        if i not in self.loc:
            self.loc[i] = ("l", len(self.loc), self.ty(self.d.body["locals"][i]))
        return self.loc[i]

    def walk(self, x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                return (self.local(x[0]), self.walk(x[1]))
            return tuple(self.walk(y) for y in x)
        if isinstance(x, dict):
            return tuple(sorted((k, self.ty(v) if k == "ty" else self.walk(v)) for k, v in x.items() if k != "span"))
        if isinstance(x, str) and re.search(r"\.rs:\d+", x):
            return ""
        return x

    def term(self, t, order):
        k = t[0]
        if k == "goto":
            return (k, self.block(t[1], order))
        if k == "call":
            return (k, self.walk(t[1]), self.walk(t[2]), self.walk(t[3]), self.block(t[4], order), self.block(t[5], order),
                    self.ty(t[7]), tuple(self.ty(a) for a in t[8]) if isinstance(t[8], list) else t[8], self.ty(t[9]))
        if k == "drop":
            return (k, self.walk(t[1]), self.block(t[2], order), self.block(t[3], order))
        if k == "switch":
            return (k, self.walk(t[1]), tuple((v, self.block(b, order)) for v, b in t[2]), self.block(t[3], order))
        if k == "assert":
            return (k, self.walk(t[1]), t[2], self.block(t[3], order), self.block(t[4], order))
        return (k,)


def find(tys, body):
    """the dispatches of a function: block -> Dispatch"""
    out = {}
    for i, b in enumerate(body["blocks"]):
        t = b[1]
        if t[0] == "switch" and is_dispatch(t[2]):
            out[i] = Dispatch(tys, body, i)
    return out
