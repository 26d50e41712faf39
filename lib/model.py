"""Grammar trees, their arena form, and a cheap matcher.

The matcher mirrors spec/Explore.tla without values; it is used only to pick
inputs and to keep the cost of cases bounded (no verdict depends on it).
"""
import os
import re


class T:
    """A grammar tree node."""
    __slots__ = ("op", "k", "a", "s", "id")

    def __init__(self, op, k=(), a=(), s=""):
        self.op, self.k, self.a, self.s = op, list(k), list(a), s


def lit(s): return T("lit", a=[ord(c) for c in s])
def chr_(c): return T("chr", a=[ord(c)])
def cls(s): return T("cls", s=s)
def charof(s): return T("charof", a=[ord(c) for c in s])
def int_(ty, radix=10): return T("int", a=[radix], s=ty)
def user(*lens): return T("user", a=list(lens))
def says(*script): return T("says", a=[x for p in script for x in p])
def seq(*ks):
    ks = list(ks)
    t = ks.pop()
    while ks:
        t = T("seq", [ks.pop(), t])
    return t
def pair(*ks):
    ks = list(ks)
    t = ks.pop()
    while ks:
        t = T("pair", [ks.pop(), t])
    return t
def alt(*ks):
    t = ks[0]
    for k in ks[1:]:
        t = T("alt", [t, k])
    return t
def opt(p): return T("opt", [p])
def star(p): return T("star", [p])
def plus(p): return T("plus", [p])
def repsep(p, q): return T("repsep", [p, q])
def grp(p): return T("grp", [p])
def by(p): return T("by", [p])
def map_(p, tag): return T("map", [p], [tag])
def string(p): return T("string", [p])
def line(p): return T("line", [p])
def section(p): return T("section", [p])
def lines(p): return T("star", [line(p)], s="lines")
def sections(p): return T("star", [section(p)], s="sections")
def coll(kind, p): return T("coll", [p], s=kind)
def probe(how, p): return T("probe", [p], s=how)
def ruleset(sid, entry, *bodies): return T("rs", [entry, *bodies], [sid])
def ref(sid, i): return T("ref", [], [sid, i])


LEAVES = {"empty", "lit", "chr", "cls", "charof", "int", "bool", "float", "user", "says"}


def arity(t):
    if t.op in ("empty", "lit", "chr"):
        return 0
    if t.op == "seq":
        return arity(t.k[0]) + arity(t.k[1])
    if t.op == "pair":
        return 2
    if t.op == "by":
        return arity(t.k[0])
    return 1


def flatten(root):
    """Arena form: list of dicts, root first; shared trees stay shared."""
    out, index, refs, bodies = [], {}, [], {}

    def go(t):
        if id(t) in index:
            return index[id(t)]
        out.append(None)
        i = len(out)
        index[id(t)] = i
        if t.op == "ref":
            out[i - 1] = {"op": "ref", "k": [], "a": t.a, "s": ""}
            refs.append(out[i - 1])
            return i
        node = {"op": t.op, "k": [], "a": t.a, "s": t.s}
        out[i - 1] = node
        node["k"] = [go(x) for x in t.k]
        if t.op == "rs":
            bodies[t.a[0]] = node["k"][1:]
        return i

    go(root)
    for r in refs:
        r["k"] = [bodies[r["a"][0]][r["a"][1] - 1]]
    return out


def node(t, op, *ks, a=(), s=""):
    return T(op, ks, a, s)


# ------------------------------------------------------------------ matcher

INT_BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
            "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64,
            "big_int": 0, "big_uint": 0}
SIGNED = {"i8", "i16", "i32", "i64", "i128", "isize", "big_int"}
INT_TYPES = list(INT_BITS)
DIGITS = {2: "01", 10: "0123456789", 16: "0123456789abcdefABCDEF"}
FLOAT = re.compile(r"[+-]?(?:infinity|inf|nan|(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:e[+-]?[0-9]+)?)", re.I | re.A)


class TooMuch(Exception):
    pass


def int_range(ty):
    b = INT_BITS[ty]
    if b == 0:
        return None
    return (-(1 << b - 1), (1 << b - 1) - 1) if ty in SIGNED else (0, (1 << b) - 1)


def leaf_ends(n, src, hi, st):
    op, a = n["op"], n["a"]
    if op == "empty":
        return [st]
    if op in ("lit", "chr"):
        e = st + len(a)
        return [e] if e <= hi and src[st:e] == a else []
    if op == "cls":
        return [st + 1] if st < hi and in_class(n["s"], src[st]) else []
    if op == "charof":
        return [st + 1] if st < hi and src[st] in a else []
    if op == "int":
        p = st
        if n["s"] in SIGNED and p < hi and src[p] in (43, 45):
            p += 1
        e = p
        while e < hi and src[e] < 128 and chr(src[e]) in DIGITS[a[0]]:
            e += 1
        if e == p:
            return []
        r = int_range(n["s"])
        v = int("".join(map(chr, src[st:e])), a[0]) if e - st < 4000 else 0
        return [e] if r is None or r[0] <= v <= r[1] else []
    if op == "bool":
        for w in ("true", "false"):
            w = [ord(c) for c in w]
            if src[st:min(hi, st + len(w))] == w:
                return [st + len(w)]
        return []
    if op == "float":
        m = FLOAT.match("".join(map(chr, src[st:hi])))
        return [st + m.end()] if m else []
    if op == "user":
        return [st + x for x in a if st + x <= hi]
    if op == "says":
        return [st + a[i + 1] for i in range(0, len(a), 2) if a[i] == 0 and st + a[i + 1] <= hi]
    raise ValueError(op)


def sample_of(name):
    """A set of code points written down in spec/Chars.tla."""
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Chars.tla")).read()
    return {int(x) for x in re.search(r"^%s\s*== \{([^}]*)\}" % name, t, re.M).group(1).split(",")}


UPPER, LOWER, LETTER, NUMBER = (sample_of(n) for n in ("NAUpper", "NALower", "NAOtherL", "NANum"))
NON_ASCII = sorted(UPPER | LOWER | LETTER | NUMBER | sample_of("NAOther"))


def in_class(s, c):
    ch = chr(c)
    if s == "any":
        return True
    if s == "digit":
        return 48 <= c < 58
    if s == "digit_bin":
        return c in (48, 49)
    if s == "digit_hex":
        return c < 128 and ch in DIGITS[16]
    upper, lower = c in UPPER or 65 <= c <= 90, c in LOWER or 97 <= c <= 122
    if s == "upper":
        return upper
    if s == "lower":
        return lower
    letter = upper or lower or c in LETTER
    return letter if s == "alpha" else letter or c in NUMBER or 48 <= c < 58


class Matcher:
    def __init__(self, g, src, cap):
        self.g, self.src, self.left = g, src, cap
        self.depth = 0

    def tick(self, w=1):
        self.left -= w
        if self.left < 0:
            raise TooMuch

    def ex(self, d, lo, hi, st):
        self.tick()
        if d == 0:
            yield st
            return
        n = self.g[d - 1]
        op, k = n["op"], n["k"]
        if op in LEAVES:
            yield from leaf_ends(n, self.src, hi, st)
        elif op in ("seq", "pair"):
            for m in self.ex(k[0], lo, hi, st):
                for e in self.ex(k[1], lo, hi, m):
                    self.tick()
                    yield e
        elif op == "alt":
            yield from self.ex(k[0], lo, hi, st)
            yield from self.ex(k[1], lo, hi, st)
        elif op == "opt":
            yield from self.ex(k[0], lo, hi, st)
            yield st
        elif op in ("star", "plus", "repsep"):
            sep = k[1] if op == "repsep" else 0
            yield from self.rep(k[0], sep, lo, hi, st, 0)
            if op != "plus":
                yield st
        elif op == "probe":
            ends = []
            for e in self.ex(k[0], lo, hi, st):
                self.tick()
                ends.append(e)
            if n["s"] == "not":
                ends = [] if ends else [st]
            elif n["s"] == "odd":
                ends = ends[::2]
            else:
                ends = [st] * len(ends[:1]) if n["s"] == "ahead" else ends[:1]
            yield from ends
        elif op in ("line", "section"):
            e = self.region(op, lo, hi, st)
            if e is None:
                return
            hit = False
            for m in self.ex(k[0], st, e[0], st):
                hit = hit or m == e[0]
            if hit:
                yield e[1]
        else:
            for e in self.ex(k[0], lo, hi, st):
                self.tick()
                yield e

    def rep(self, p, sep, lo, hi, st, count):
        for m in self.ex(p, lo, hi, st):
            for e in self.ex(sep, lo, hi, m):
                if e == st:
                    continue
                yield from self.rep(p, sep, lo, hi, e, count + 1)
            self.tick(1 + count // 8)
            yield m

    def region(self, op, lo, hi, st):
        src = self.src
        if op == "line":
            if st > lo and src[st - 1] != 10:
                return None
        elif not (st == lo or (st == lo + 1 and src[st - 1] == 10)
                  or (st >= lo + 2 and src[st - 1] == 10 and src[st - 2] == 10)):
            return None
        if st >= hi:
            return None
        if op == "line":
            p = st
            while p < hi and src[p] != 10:
                p += 1
            return (p, min(p + 1, hi))
        if src[st] == 10:
            return (st, st + 1)
        p = st
        while p + 1 < hi and not (src[p] == 10 and src[p + 1] == 10):
            p += 1
        return (hi, hi) if p + 1 >= hi else (p + 1, p + 2)


def cost(g, src, cap, st=0):
    """(items of a full exploration, matches whole input?) or None if > cap."""
    m = Matcher(g, src, cap)
    full = False
    n = 0
    try:
        for e in m.ex(1, 0, len(src), st):
            n += 1
            m.tick()
            full = full or e == len(src)
    except (TooMuch, RecursionError):
        return None
    return cap - m.left, full
