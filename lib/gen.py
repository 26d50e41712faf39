"""Random grammars and inputs, by profile."""
import random
from model import *
import model

# Characters that code likes to treat specially.
ODD = [0, 9, 11, 12, 13, 28, 32, 92, 127, 133, 160, 8232, 8233, 12288, 65279]
assert all(c < 128 or c in NON_ASCII for c in ODD)
CLASSES = ["alpha", "alnum", "upper", "lower", "any", "digit", "digit_bin", "digit_hex"]
COLLS = ["hash_set", "btree_set", "hash_map", "btree_map", "vec_deque"]

# Default operator weights. Profiles override some of them.
BASE = dict(lit=6, chr=2, empty=1, cls=5, charof=1, int=2, bool=0, float=0, user=0, says=0,
            seq=10, pair=1, alt=5, opt=4, star=4, plus=2, repsep=3, grp=3, map=2, mapl=1,
            string=1, line=1, section=1, lines=1, sections=1, coll=1, rs=0, by=1, probe=0)
LEAF = ["lit", "chr", "empty", "cls", "charof", "int", "bool", "float", "user", "says"]


def looks_into_regions(t):
    """Where user code looks ahead at a line or section and then gives up what
    it saw, what was reported inside may or may not count; not generated."""
    return t.op in ("line", "section", "ref") or any(looks_into_regions(k) for k in t.k)


def unclear(t):
    return t.op == "probe" and t.s in ("ahead", "not") and looks_into_regions(t) or any(unclear(k) for k in t.k)


class Gen:
    def __init__(self, rng, alphabet="ab", weights=None, classes=("any", "alpha", "lower"),
                 ints=("u8", "i8", "u32", "i64", "big_int"), depth=4, lits=None, rules=True):
        self.r = rng
        self.w = dict(BASE)
        self.w.update(weights or {})
        self.alpha = alphabet
        self.classes = list(classes)
        self.ints = list(ints)
        self.depth = depth
        self.lits = lits
        self.tag = 0
        self.set = 0
        self.scope = []       # rule sets in scope: (sid, [arity of bodies])

    # ------------------------------------------------------------ trees
    def pick(self, ops):
        ws = [self.w.get(o, 0) for o in ops]
        return self.r.choices(ops, ws)[0]

    def newtag(self):
        self.tag += 1
        return self.tag

    def leaf(self):
        r = self.r
        op = self.pick(LEAF)
        if op == "lit":
            if self.lits:
                return lit(r.choice(self.lits))
            return lit("".join(r.choice(self.alpha) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))))
        if op == "chr":
            return chr_(r.choice(self.alpha))
        if op == "cls":
            return cls(r.choice(self.classes))
        if op == "charof":
            n = r.choice([1, 2, 2, 3, 4])
            return charof("".join(r.choice(self.alpha + "xy") for _ in range(n)))
        if op == "int":
            return int_(r.choice(self.ints), r.choice([10, 10, 10, 2, 16]))
        if op == "float":
            return T("float", s=r.choice(["f32", "f64"]))
        if op == "user":
            n = r.choice([1, 2, 2, 3])
            return user(*[r.choice([0, 1, 1, 2, 3]) for _ in range(n)])
        if op == "says":
            return says(*[(w, r.choice([0, 1, 1, 2, 3] if w in (0, 3) else [0, 1, 2, 2, 3, 5, -1, -2]))
                          for w in r.choices([0, 1, 2, 3, 4], [5, 3, 1, 1, 1], k=r.choice([1, 2, 2, 3, 4, 5]))])
        return T(op)

    OPS = ["seq", "pair", "alt", "opt", "star", "plus", "repsep", "grp", "map", "mapl", "string",
           "line", "section", "lines", "sections", "coll", "rs", "by", "probe"]

    def tree(self, depth=None):
        """A tree of any arity up to 8."""
        if depth is None:
            depth = self.depth
        r = self.r
        if depth <= 0 or r.random() < 0.12:
            return self.leaf_or_ref()
        op = self.pick(self.OPS)
        return self.make(op, depth - 1)

    def leaf_or_ref(self):
        if self.scope and self.r.random() < 0.3:
            sid, ars = self.r.choice(self.scope)
            i = self.r.randrange(len(ars))
            # guarded: a rule never starts with a rule, so recursion consumes text
            return seq(lit(self.r.choice(self.alpha)), ref(sid, i + 1))
        return self.leaf()

    def sized(self, depth, lo, hi):
        """A tree with lo <= arity <= hi."""
        for _ in range(6):
            t = self.tree(depth)
            if lo <= arity(t) <= hi:
                return t
        t = self.tree(depth)
        return t if lo <= arity(t) <= hi else map_(t, self.newtag()) if lo <= 1 <= hi else \
            (seq(t, self.leaf()) if lo <= arity(seq(t, self.leaf())) <= hi else lit(self.r.choice(self.alpha)))

    def make(self, op, d):
        r = self.r
        if op == "seq":
            a = self.tree(d)
            b = self.sized(d, 0, 8 - arity(a))
            if arity(a) + arity(b) > 8:
                b = lit(r.choice(self.alpha))
            return T("seq", [a, b])
        if op == "pair":
            return T("pair", [self.small(d), self.small(d)])
        if op == "alt":
            n = r.choice([2, 2, 3, 4])
            first = self.small(d)
            arms = [first]
            for _ in range(n - 1):
                arms.append(self.small(d))
            return self.unify(arms)
        if op in ("opt", "star", "plus", "grp", "string", "line", "section"):
            return T(op, [self.tree(d)])
        if op == "map":
            return map_(self.tree(d), self.newtag())
        if op == "mapl":
            n = r.choice([1, 2, 3, 4])
            ix = sorted(r.sample(range(1, n + 1), r.randint(0, n)))
            if r.random() < 0.2:
                r.shuffle(ix)
            return T("mapl", [pair(*[self.small(d - 1) for _ in range(n)])], [self.newtag(), n] + ix)
        if op == "repsep":
            return repsep(self.tree(d), self.small(d - 1))
        if op == "lines":
            return lines(self.tree(d))
        if op == "sections":
            return sections(self.tree(d))
        if op == "coll":
            kind = r.choice(COLLS)
            rep = r.choice(["star", "plus", "repsep"])
            if kind.endswith("map"):
                item = seq(self.one(d - 1), self.one(d - 2))
                if r.random() < 0.3:
                    item = grp(item)
            else:
                item = self.tree(d)
            body = repsep(item, lit(r.choice(self.alpha))) if rep == "repsep" else T(rep, [item])
            return coll(kind, body)
        if op == "by":
            t = self.tree(d)
            return by(t)
        if op == "probe":
            how = r.choice(["ahead", "not", "once", "once", "odd", "odd"])
            t = self.tree(d)
            if how in ("ahead", "not") and looks_into_regions(t):
                how = "once"
            t = probe(how, t)
            if how == "ahead" and r.random() < .7:
                return seq(t, r.choice([star(cls("any")), cls("any"), self.small(d)]))
            if how == "not" and r.random() < .7:
                return r.choice([seq(t, self.small(d)), star(grp(seq(t, cls("any"))))])
            return t
        if op == "rs":
            return self.ruleset(d)
        raise ValueError(op)

    def small(self, d):
        return self.sized(d, 0, 3)

    def one(self, d):
        return self.sized(d, 1, 1)

    def unify(self, arms):
        if len({arity(a) for a in arms}) > 1:
            how = self.r.choice(["grp", "map", "string", "map"])
            if how == "string":
                arms = [string(a) for a in arms]
            elif how == "map":
                arms = [map_(a, self.newtag()) for a in arms]
            else:
                arms = [grp(a) for a in arms]
        elif self.r.random() < 0.4:
            arms = [map_(a, self.newtag()) for a in arms]
        return alt(*arms)

    def ruleset(self, d):
        r = self.r
        self.set += 1
        sid = self.set
        n = r.choice([1, 1, 2, 2, 3])
        self.scope.append((sid, [None] * n))
        bodies = []
        for _ in range(n):
            body = self.small(max(d, 1))
            # a base case first or last, so that the rule can end
            base = seq(lit(r.choice(self.alpha)), *([] if r.random() < .5 else [self.leaf()]))
            arms = [map_(body, self.newtag()), map_(base, self.newtag())]
            if r.random() < .5:
                arms.reverse()
            bodies.append(alt(*arms))
        e = r.choice(["ref", "ref", "seq", "tree"])
        if e == "ref":
            entry = ref(sid, r.randint(1, n))
        elif e == "seq":
            entry = seq(ref(sid, r.randint(1, n)), self.sized(1, 0, 1))
        else:
            entry = self.small(d)
        self.scope.pop()
        return ruleset(sid, entry, *bodies)

    # ------------------------------------------------------------ texts
    def derive(self, g, fuel=40):
        """A text that the grammar may match (regions included)."""
        self.fuel = fuel
        return self.dv(g, 1)

    def dv(self, g, d):
        if d == 0:
            return []
        r = self.r
        n = g[d - 1]
        op, k, a = n["op"], n["k"], n["a"]
        self.fuel -= 1
        low = self.fuel <= 0
        if op == "empty":
            return []
        if op in ("lit", "chr"):
            return list(a)
        if op == "cls":
            return [r.choice(self.samples(n["s"]))]
        if op == "charof":
            return [r.choice(a)] if a else []
        if op == "int":
            return [ord(c) for c in self.numeral(n["s"], a[0])]
        if op == "bool":
            return [ord(c) for c in r.choice(["true", "false"])]
        if op == "float":
            return [ord(c) for c in self.floating()]
        if op == "user":
            return [ord(r.choice(self.alpha)) for _ in range(r.choice(a) if a else 0)]
        if op == "says":
            lens = [a[i + 1] for i in range(0, len(a), 2) if a[i] == 0]
            return [ord(r.choice(self.alpha)) for _ in range(r.choice(lens) if lens else 0)]
        if op in ("seq", "pair"):
            return self.dv(g, k[0]) + self.dv(g, k[1])
        if op == "alt":
            if low:
                return self.dv(g, k[1]) if self.fuel > -60 else []
            return self.dv(g, r.choice(k))
        if op == "opt":
            return [] if low or r.random() < .35 else self.dv(g, k[0])
        if op in ("star", "plus", "repsep"):
            m = r.choice([0, 1, 1, 2, 2, 3, 4])
            if low:
                m = 0
            if op == "plus":
                m = max(m, 1)
            out = []
            for i in range(m):
                if i and op == "repsep":
                    out += self.dv(g, k[1])
                out += self.dv(g, k[0])
            return out
        if op == "probe" and n["s"] == "not":
            return []
        if op == "probe" and n["s"] == "ahead" and r.random() < .5:
            return []
        if op == "line":
            t = self.dv(g, k[0])
            return t + [10] if r.random() < .9 else t
        if op == "section":
            t = self.dv(g, k[0])
            if t and t[-1] == 10:
                return t + [10] if r.random() < .85 else t
            return t + ([10, 10] if r.random() < .6 else [10])
        if op == "ref":
            if self.fuel < -80:
                return []
            return self.dv(g, k[0])
        return self.dv(g, k[0])

    def samples(self, c):
        pool = [ord(x) for x in self.alpha] + [ord(x) for x in "aZ09f1"] + self.r.sample(NON_ASCII, 3)
        ok = [x for x in pool if model.in_class(c, x)]
        return ok or [ord("a")]

    def numeral(self, ty, radix):
        r = self.r
        rg = int_range(ty)
        p = r.random()
        if p < .5 or (rg is None and p < .8):
            v = r.choice([0, 1, 2, 9, 10, 15, 16, 99, 100])
        elif rg is None:
            v = r.randrange(10 ** r.choice([20, 40, 60]))
        else:
            v = r.choice([rg[0], rg[1], rg[0] + 1, rg[1] - 1, rg[1] + 1, rg[0] - 1, rg[1] * 2, r.randint(rg[0], rg[1])])
        neg = v < 0
        if neg and ty not in SIGNED:
            neg, v = False, -v
        v = abs(v)
        s = format(v, {10: "d", 2: "b", 16: r.choice("xX")}[radix])
        if r.random() < .15:
            s = "0" * r.choice([1, 2, 5]) + s
        if neg:
            s = "-" + s
        elif ty in SIGNED and r.random() < .2:
            s = r.choice("+-") + s
        return s

    def floating(self):
        r = self.r
        if r.random() < .25:
            w = r.choice(["inf", "infinity", "nan"])
            w = "".join(c.upper() if r.random() < .3 else c for c in w)
            return r.choice(["", "", "+", "-"]) + w
        i = "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 1, 2, 5, 17, 25])))
        f = r.choice(["", "", "."]) or ""
        if f:
            f += "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 2, 6, 20])))
        if not i and len(f) < 2:
            i = "7"
        e = ""
        if r.random() < .3:
            e = r.choice("eE") + r.choice(["", "+", "-"]) + r.choice(["0", "1", "5", "10", "38", "39", "308", "309", "45", "400"])
        return r.choice(["", "", "+", "-"]) + i + f + e

    def mutate(self, s):
        r = self.r
        s = list(s)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            p = r.random()
            i = r.randint(0, len(s))
            c = ord(r.choice(self.alpha + "\n" + self.alpha)) if r.random() < .88 else r.choice(NON_ASCII + ODD)
            if p < .3:
                s.insert(i, c)
            elif p < .55 and s:
                del s[min(i, len(s) - 1)]
            elif p < .75 and s:
                s[min(i, len(s) - 1)] = c
            elif p < .83:
                s = s[:i]
            elif p < .9 and s:
                j = r.randint(0, len(s))
                a, b = min(i, j), max(i, j)
                s = s[:b] + s[a:b] + s[b:]
            elif p < .95:
                s = s + s
            else:
                s = s[i:]
        return s[:60]

    def noise(self, n=8):
        return [ord(self.r.choice(self.alpha)) for _ in range(self.r.randint(0, n))]

    def inputs(self, g, count):
        out = []
        for _ in range(count):
            p = self.r.random()
            s = self.derive(g)
            if p < .15:
                s = self.noise()
            elif p < .55:
                s = self.mutate(s)
            out.append(s[:80])
        return out
