"""The cases (grammar, text) each property is checked on.

corpus(pid, rng, n) returns about n random cases of the property's own
profile plus its exhaustive families. Every case is a dict
    g, src, mode, fuel   (see spec/Conform.tla)
and `big` cases are ones the step machine is not run on.
"""
import itertools
import random
from model import *
from gen import *
import model

CAP = 600


def case(g, src, mode="parse", cap=CAP, trace=False):
    """A case, or None if exploring it fully would take more than `cap` steps."""
    eff = src + [10] if mode == "aoc" and src[-1:] != [10] else src
    c = cost(g, eff, cap)
    if c is None:
        return None
    out = {"g": g, "src": src, "mode": mode, "fuel": c[0] * 200 + 20000, "steps": c[0], "full": c[1]}
    if trace:
        out["trace"] = True
    return out


def driven(rng, cases, per=3):
    """The same patterns and texts, driven by hand from several positions."""
    out = []
    for c in cases:
        n = len(c["src"])
        if c["steps"] > 300:
            continue
        for st in sorted({0, rng.randint(0, n), rng.randint(0, n), rng.choice([0, n])})[:per]:
            other = rng.randint(0, n)
            a, b = (model.cost(c["g"], c["src"], 300, x) for x in (st, other))
            if a and b:
                out.append({"g": c["g"], "src": c["src"], "mode": "all", "fuel": (a[0] + b[0]) * 1000 + 100000, "steps": a[0],
                            "full": c["full"], "st": st, "other": other, "k": rng.choice([0, 1, 1, 2, 3])})
    return out


def cps(s):
    return [ord(c) for c in s]


def random_cases(rng, n, mk, per=6, mode="parse", cap=CAP, maxnodes=40, trace=False, keep=None):
    """n cases from grammars made by mk(rng) -> (Gen, tree)."""
    out = []
    tries = 0
    while len(out) < n and tries < 40 * n:
        tries += 1
        G, t = mk(rng)
        if arity(t) > 8:
            continue
        g = flatten(t)
        if len(g) > maxnodes:
            continue
        for s in G.inputs(g, per):
            c = case(g, s, mode, cap, trace)
            if c and (keep is None or keep(c, rng)):
                out.append(c)
    return out[:n]


def add(out, tree_or_g, texts, **kw):
    g = tree_or_g if isinstance(tree_or_g, list) else flatten(tree_or_g)
    for s in texts:
        c = case(g, cps(s) if isinstance(s, str) else s, **kw)
        if c:
            out.append(c)
    return out


def words(alphabet, upto, lo=0):
    for k in range(lo, upto + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield "".join(w)


# ----------------------------------------------------------------- profiles

def general(rng):
    G = Gen(rng, alphabet=rng.choice(["ab", "ab", "ab\n", "abé", "a,1\n"]),
            weights=dict(rs=2, user=1, probe=1), depth=rng.choice([2, 3, 4, 5]))
    return G, G.tree()


def ambiguous(rng):
    G = Gen(rng, alphabet=rng.choice(["a", "ab", "ab", "abc"]),
            weights=dict(lit=8, cls=6, empty=1, chr=1, charof=1, int=0, seq=14, alt=9, opt=7, star=7, plus=4,
                         repsep=5, grp=3, map=4, mapl=2, string=3, line=0, section=0, lines=0, sections=0,
                         coll=0, rs=1, by=1, user=3, probe=2),
            classes=("any", "alpha"), depth=rng.choice([3, 4, 5]))
    return G, G.tree()


def shapes(rng):
    G = Gen(rng, alphabet="abc",
            weights=dict(lit=4, cls=10, chr=2, empty=2, charof=2, int=1, seq=24, pair=2, alt=4, opt=4, star=2, plus=1,
                         repsep=1, grp=9, map=3, mapl=2, string=2, line=0, section=0, lines=0, sections=0, coll=1,
                         rs=2, by=3),
            classes=("any", "alpha", "lower"), depth=rng.choice([3, 4, 5, 6]))
    return G, G.tree()


def repetitive(rng):
    G = Gen(rng, alphabet=rng.choice(["a", "ab", "ab", "a,", "ab,"]),
            weights=dict(lit=8, cls=4, empty=2, chr=1, charof=1, int=1, user=3, probe=2, seq=9, pair=1, alt=4, opt=5, star=8,
                         plus=8, repsep=14, grp=2, map=2, mapl=1, string=1, line=0, section=0, lines=1, sections=0,
                         coll=1, rs=1, by=1),
            classes=("any", "alpha"), depth=rng.choice([2, 3, 4]))
    return G, G.tree()


def nullable(rng):
    G = Gen(rng, alphabet=rng.choice(["a", "ab", "a\n", "\n", "é\n", "a京😂"]),
            weights=dict(lit=4, cls=4, empty=6, chr=1, charof=2, int=2, float=1, bool=1, user=4, probe=2, seq=8, pair=1, alt=6,
                         opt=8, star=8, plus=6, repsep=8, grp=2, map=1, mapl=1, string=2, line=3, section=3, lines=3,
                         sections=3, coll=1, rs=2, by=1),
            classes=CLASSES, depth=rng.choice([2, 3, 4]))
    return G, G.tree()


def regions(main):
    def mk(rng):
        w = dict(lit=6, cls=5, empty=2, chr=2, charof=1, int=2, user=1, probe=1, seq=8, pair=1, alt=3, opt=4, star=6, plus=4,
                 repsep=4, grp=1, map=2, mapl=1, string=4, coll=1, rs=1, by=1)
        if main == "line":
            w.update(line=10, lines=8, section=2, sections=2)
        else:
            w.update(line=4, lines=4, section=10, sections=8)
        G = Gen(rng, alphabet=rng.choice(["a\n", "ab\n", "a\n\n", "é\n", "1\n", f"a{chr(rng.choice(ODD))}\n"]), weights=w,
                classes=("any", "alpha", "digit"), depth=rng.choice([2, 3, 4]))
        return G, G.tree()
    return mk


def mapped(rng):
    G = Gen(rng, alphabet=rng.choice(["a", "ab", "ab\n"]),
            weights=dict(lit=6, cls=5, empty=1, user=2, probe=2, seq=9, alt=6, opt=5, star=5, plus=3, repsep=4, grp=2, map=12,
                         mapl=8, string=4, line=2, section=2, lines=2, sections=1, coll=2, rs=2, by=1),
            classes=("any", "alpha"), depth=rng.choice([3, 4, 5]))
    return G, G.tree()


def failing(rng):
    G = Gen(rng, alphabet=rng.choice(["ab", "ab\n", "a\né", "😂a\n", "1a\n", "a\t\"'\\", "a\r\n", f"a{chr(rng.choice(ODD))}\n"]),
            weights=dict(lit=8, cls=6, chr=3, empty=1, charof=4, int=4, bool=2, float=2, user=2, probe=2, seq=12, alt=6, opt=4,
                         star=4, plus=3, repsep=4, grp=2, map=2, string=2, line=4, section=3, lines=4, sections=3,
                         coll=1, rs=2, by=1),
            classes=CLASSES, ints=INT_TYPES, depth=rng.choice([2, 3, 4]))
    return G, G.tree()


def keep_failing(c, rng):
    return not c["full"] or rng.random() < .1


def ruled(rng):
    G = Gen(rng, alphabet=rng.choice(["ab", "ab\n", "(a)", "a,\n"]),
            weights=dict(rs=14, line=3, section=3, lines=3, sections=2, user=1, probe=1, by=3, string=2, coll=1),
            depth=rng.choice([3, 4, 5]))
    t = G.ruleset(rng.choice([2, 3]))
    if rng.random() < .6:
        # the same set again, or inside something larger
        wrap = rng.choice(["lines", "star", "seq2", "sections", "repsep", "line", "opt", "nest"])
        if wrap == "lines":
            t = lines(t)
        elif wrap == "sections":
            t = sections(t)
        elif wrap == "line":
            t = line(t)
        elif wrap == "star":
            t = star(seq(t, lit(rng.choice(G.alpha))))
        elif wrap == "opt":
            t = seq(opt(t), lit(rng.choice(G.alpha)))
        elif wrap == "repsep":
            t = repsep(t, lit(rng.choice(G.alpha)))
        elif wrap == "seq2":
            t = seq(by(t), lit(rng.choice(G.alpha)), by(t))
        elif wrap == "nest":
            t = seq(t, G.ruleset(2))
    return G, t


def chars(rng):
    al = "".join(chr(c) for c in rng.sample(NON_ASCII, 5)) + rng.choice(["aZ9", "b0f", "\nA_"])
    G = Gen(rng, alphabet=al,
            weights=dict(lit=5, cls=14, chr=5, empty=0, charof=8, int=0, seq=12, alt=4, opt=3, star=4, plus=3, repsep=2,
                         grp=1, map=1, mapl=1, string=3, line=1, lines=1, section=1, sections=0, coll=1, by=1),
            classes=CLASSES, depth=rng.choice([1, 2, 3]))
    return G, G.tree()


def integers(rng):
    G = Gen(rng, alphabet=rng.choice(["0", "01", "a1", "+1", "-1", "-+0f", "_1", "1٣"]),
            weights=dict(lit=5, cls=2, chr=1, empty=0, charof=1, int=22, seq=10, alt=4, opt=4, star=4, plus=2, repsep=4,
                         grp=1, map=1, mapl=1, string=3, line=1, lines=1, section=0, sections=0, coll=1, by=0),
            classes=("digit", "any", "digit_hex"), ints=INT_TYPES, depth=rng.choice([1, 2, 3]))
    return G, G.tree()


def floats(rng):
    G = Gen(rng, alphabet=rng.choice([".1", "e1", "+-", "infa", "n1", "E.", "tru", "0x", "_", "1٣"]),
            weights=dict(lit=5, cls=2, chr=1, empty=0, charof=1, int=1, float=14, bool=8, seq=10, alt=4, opt=4, star=4,
                         plus=2, repsep=4, grp=1, map=1, mapl=1, string=4, line=1, lines=1, section=0, sections=0,
                         coll=1, by=0),
            classes=("digit", "any", "alpha"), depth=rng.choice([1, 2, 3]))
    return G, G.tree()


def strings(rng):
    G = Gen(rng, alphabet=rng.choice(["a", "ab", "ab\n", "aé", "é😂", "a京\n", f"a{chr(rng.choice(ODD))}\n"]),
            weights=dict(string=24, user=3, probe=2, line=3, section=2, lines=3, sections=2, rs=2, repsep=5, star=6, alt=6, opt=5),
            depth=rng.choice([3, 4, 5]))
    return G, G.tree()


def collecting(rng):
    G = Gen(rng, alphabet=rng.choice(["ab", "a,", "ab,", "abc"]),
            weights=dict(coll=26, user=2, probe=1, line=1, section=0, lines=1, sections=0, rs=1, map=3, mapl=2, string=3),
            depth=rng.choice([3, 4, 5]))
    return G, G.make("coll", G.depth) if rng.random() < .6 else G.tree()


def users(rng):
    G = Gen(rng, alphabet=rng.choice(["a", "ab", "ab\n", "é\n"]),
            weights=dict(lit=3, cls=2, chr=1, empty=1, charof=1, int=1, user=18, probe=10, seq=12, pair=2, alt=6, opt=5, star=5,
                         plus=4, repsep=6, grp=2, map=3, mapl=2, string=3, line=3, section=3, lines=3, sections=2,
                         coll=1, rs=2, by=2),
            classes=("any", "alpha"), depth=rng.choice([2, 3, 4]))
    return G, G.tree()


def tellers(rng):
    G = Gen(rng, alphabet=rng.choice(["a", "ab", "ab\n", "é\n", "ab\n\n"]),
            weights=dict(lit=4, cls=3, chr=1, empty=1, charof=1, int=2, user=2, says=18, probe=3, seq=12, pair=2, alt=6, opt=5,
                         star=5, plus=4, repsep=6, grp=2, map=3, mapl=2, string=3, line=5, section=4, lines=4, sections=3,
                         coll=1, rs=2, by=2),
            classes=("any", "alpha"), depth=rng.choice([2, 3, 4]))
    return G, G.tree()


# ------------------------------------------------------ exhaustive families

def fam_small(ops1, ops2, leaves, alphabet, upto, rng=None, limit=None):
    """All grammars of depth <= 2 over the given operators, all short texts.

    Unary operators on leaves, binary ones on pairs of those (sampled down to
    `limit` grammars)."""
    d0 = leaves
    mk1 = {"opt": opt, "star": star, "plus": plus, "grp": grp, "line": line, "section": section, "string": string,
           "lines": lines, "sections": sections, "by": by, "map": lambda t: map_(t, 1)}
    d1 = d0 + [(lambda f, t: (lambda: f(t())))(mk1[o], t) for o in ops1 for t in d0]
    mk2 = {"seq": lambda a, b: T("seq", [a, b]), "alt": lambda a, b: alt(a, b) if arity(a) == arity(b)
           else alt(map_(a, 1), map_(b, 2)), "repsep": repsep, "pair": lambda a, b: T("pair", [a, b])}
    todo = [(lambda f, x, y: (lambda: f(x(), y())))(mk2[o], x, y) for o in ops2 for x in d1 for y in d1]
    todo += [(lambda f, t: (lambda: f(t())))(mk1[o], t) for o in ops1 for t in d1]
    if limit and len(todo) > limit:
        todo = rng.sample(todo, limit)
    out = []
    texts = [cps(w) for w in words(alphabet, upto)]
    for f in todo:
        try:
            t = f()
        except AssertionError:
            continue
        if arity(t) <= 8:
            add(out, t, texts)
    return out


def fam_probes(step=1, texts=None):
    """User-written parsers around the library's, in every kind of place."""
    kids = [lambda: lit("a"), lambda: lit("ab"), lambda: cls("any"), lambda: star(cls("any")), lambda: alt(lit("a"), lit("ab")),
            lambda: user(1, 2, 1, 0), lambda: opt(lit("a")), lambda: map_(plus(lit("a")), 7), lambda: seq(cls("any"), lit("b")),
            lambda: line(star(cls("alpha"))), lambda: section(lines(opt(lit("a")))), lambda: repsep(lit("a"), opt(lit("b"))),
            lambda: string(seq(star(lit("a")), opt(lit("b")))), lambda: T("empty")]
    rest = lambda: star(cls("any"))
    uses = [lambda p: p, lambda p: seq(p, rest()), lambda p: seq(p, lit("a")), lambda p: seq(lit("a"), p, cls("any")),
            lambda p: seq(p, string(rest())), lambda p: star(seq(p, cls("any"))), lambda p: repsep(p, lit("b")), lambda p: plus(p),
            lambda p: alt(map_(p, 1), map_(cls("any"), 2)), lambda p: alt(map_(seq(p, lit("b")), 1), map_(rest(), 2)),
            lambda p: lines(p), lambda p: seq(section(p), rest()), lambda p: string(seq(p, rest())), lambda p: map_(seq(opt(p), rest()), 3),
            lambda p: seq(probe("once", seq(p, opt(cls("any")))), rest()), lambda p: seq(probe("not", seq(p, lit("b"))), rest()),
            lambda p: probe("odd", seq(p, rest()))]
    out = []
    texts = texts or ["", "a", "b", "ab", "aa", "aab", "abab", "aaba", "a\nb\n", "ab\n", "\n", "aaa\n\na", "ba", "ac"]
    i = 0
    for how in ("ahead", "not", "once", "odd"):
        for kid in kids:
            for use in uses:
                i += 1
                t = use(probe(how, kid()))
                if i % step == 0 and not unclear(t):
                    add(out, t, texts)
    return out


SAYINGS = [[(1, 0)], [(1, 2)], [(2, 1)], [(3, 1)], [(4, 1)], [(1, -1)], [(1, 1), (1, 1)], [(2, 1), (1, 1)], [(4, 2), (1, 2)],
           [(3, 0), (1, 0)], [(1, 1), (0, 1)], [(0, 1), (1, 1)], [(1, 2), (0, 1)], [(0, 1), (1, 2)], [(0, 1), (1, 9)], [(0, 0), (3, 2)],
           [(0, 2), (1, 2), (0, 1), (2, 2)], [(0, 1), (4, 1), (0, 0)], [(1, -1), (0, 1), (1, -2)], [(2, 0), (0, 2), (1, 1), (0, 1), (1, 3)],
           [(0, 3), (1, 0)], [(0, 1), (1, 0), (0, 1), (1, 1)]]


def fam_says(step=1):
    """User-written parsers that report failures of their own, in every kind of place."""
    rest = lambda: star(cls("any"))
    uses = [lambda p: p, lambda p: seq(p, lit("a")), lambda p: seq(lit("a"), p), lambda p: seq(cls("any"), p, lit("b")),
            lambda p: alt(p, map_(lit("ab"), 1)), lambda p: alt(map_(lit("ab"), 1), p), lambda p: seq(opt(p), lit("a")),
            lambda p: star(p), lambda p: repsep(p, lit("b")), lambda p: repsep(lit("a"), map_(p, 1)), lambda p: plus(seq(p, lit("a"))),
            lambda p: line(p), lambda p: lines(seq(p, opt(lit("b")))), lambda p: seq(line(p), line(p)), lambda p: section(p),
            lambda p: sections(lines(p)), lambda p: seq(section(rest()), section(p)), lambda p: alt(line(p), line(rest())),
            lambda p: seq(alt(line(p), line(rest())), lit("a")), lambda p: string(seq(p, opt(lit("a")))), lambda p: map_(seq(p, lit("b")), 3),
            lambda p: seq(coll("hash_set", star(p)), lit("b")), lambda p: ruleset(1, ref(1, 1), alt(map_(seq(lit("a"), p, ref(1, 1)), 1), map_(lit("b"), 2))),
            lambda p: seq(probe("once", p), lit("a")), lambda p: seq(probe("not", p), rest()), lambda p: seq(probe("ahead", p), lit("b")),
            lambda p: lines(section(p)), lambda p: sections(seq(cls("any"), line(seq(p, lit("x"))))), lambda p: seq(lit("é"), p, lit("b"))]
    texts = ["", "a", "ab", "ba", "aab", "é", "aéb", "ééa", "a\nb\n", "ab\nb\n", "aa\n\nab\n", "a\n\nb\nx\n", "\n", "abab", "😂é\na\n"]
    out = []
    i = 0
    for s in SAYINGS:
        for use in uses:
            i += 1
            if i % step == 0:
                t = use(says(*s))
                if not unclear(t):
                    add(out, t, texts)
    return out


def L(*ts):
    return [(lambda t: (lambda: T(t.op, t.k, t.a, t.s)))(t) for t in ts]


def fam_core(rng, limit):
    return fam_small(["opt", "star", "plus", "grp", "map"], ["seq", "alt", "repsep"],
                     L(lit("a"), lit("b"), lit("ab"), cls("any"), T("empty"), user(2, 1), user(0, 1)),
                     "ab", 3, rng, limit)


def fam_arms(step=1):
    """Alternations whose arms match given lengths, wherever one can stand.

    Which arm is taken, and which remaining ones are tried after it, must not
    depend on the lengths, the order or the neighbours."""
    arm = [lambda: T("empty"), lambda: lit("a"), lambda: lit("ab")]
    rest = lambda: star(cls("any"))
    places = [lambda p: p, line, section, lambda p: string(p) if arity(p) <= 1 else p, lambda p: lines(p), lambda p: sections(p), lambda p: seq(p, lit("b")),
              lambda p: seq(p, rest()), lambda p: seq(line(p), line(p)), lambda p: seq(line(seq(p, lit("b"))), rest()),
              lambda p: line(seq(p, opt(lit("b")))), lambda p: section(lines(p)), lambda p: repsep(p, lit(",")),
              lambda p: star(seq(p, lit("b"))), lambda p: line(seq(lit("a"), p)), lambda p: opt(p), lambda p: seq(lit("a"), line(p)),
              lambda p: map_(line(p), 9), lambda p: alt(map_(line(p), 8), map_(section(rest()), 9)), lambda p: line(line(p))]
    texts = ["", "\n", "a", "a\n", "ab", "ab\n", "a\na\n", "\n\n", "abb\n", "aab\n", "a,ab", "ab\n\n", "b\na"]
    out = []
    i = 0
    for n in (2, 3, 4):
        for lens in itertools.product(range(3), repeat=n):
            for put in places:
                i += 1
                if i % step == 0:
                    arms = [map_(arm[k](), j + 1) for j, k in enumerate(lens)]
                    add(out, put(alt(*arms)), texts)
    return out


def fam_marks():
    """Every kind of thing that can fail, after a character of each width, on
    texts where the next character is unusual."""
    things = [cls(c) for c in CLASSES] + [chr_("a"), lit("ab"), charof("ab"), int_("u8", 10), int_("i64", 16), int_("u32", 2), T("float", s="f64"),
                                          T("bool"), line(lit("a")), section(lit("a")), lines(lit("a")), string(lit("a")), alt(lit("a"), lit("b"))]
    odd = sorted(set(ODD) | {127, 128, 768, 769, 776, 811, 837, 865, 1154, 2047, 2048, 8205, 8419, 65039, 65533, 65535, 65536, 127995, 1114111})
    assert all(x < 128 or x in NON_ASCII for x in odd)
    out = []
    for t in things:
        g = flatten(seq(cls("any"), t))
        h = flatten(seq(star(cls("any")), t))
        for prev in "aé京😂":
            add(out, g, [[ord(prev), x] for x in odd])
            add(out, h, [[ord(prev), x, 97] for x in odd[::3]])
    return out


def fam_regions(op, rng, limit):
    return fam_small([op, op + "s", "star", "opt", "plus", "string"], ["seq", "alt", "repsep"],
                     L(lit("a"), lit("\n"), cls("any"), T("empty"), line(star(cls("any"))), section(star(cls("any")))),
                     "a\n", 4, rng, limit)


def fam_odd(op):
    """Texts with characters that are nearly newlines, blanks or nothing."""
    out = []
    R = {"line": line, "section": section, "lines": lines, "sections": sections}
    rest = lambda: star(cls("any"))
    pats = [R[op](string(rest())), R[op + "s"](string(rest())), R[op + "s"](lines(string(rest()))) if op == "section" else lines(star(seq(cls("any"), opt(lit("a"))))),
            seq(R[op](string(rest())), string(rest())), seq(string(cls("any")), R[op + "s"](string(rest())))]
    for x in ODD:
        for p in pats:
            add(out, p, [[{"a": 97, "n": 10, "x": x}[c] for c in w] for w in words("anx", 4) if "x" in w])
        add(out, pats[1], [cps("a\n") + [x, 10] + cps("b\n"), cps("a") + [x, 10, x, 10], cps("a\n") + [x, x, 10, 10], cps("ab") + [x, 10, 10, x, 10, 97]])
    return out


def fam_tuples():
    """Every way of joining i and j values, i + j <= 8, with exact text between."""
    out = []
    for i in range(9):
        for j in range(9 - i):
            def block(n, c):
                parts = [cls("any") for _ in range(n)]
                return seq(*parts) if parts else lit(c)
            for left_nested in (False, True):
                def chain(n, c):
                    if n == 0:
                        return lit(c)
                    t = cls("any")
                    for _ in range(n - 1):
                        t = T("seq", [t, cls("any")]) if left_nested else T("seq", [cls("any"), t])
                    return t
                t = T("seq", [chain(i, "<"), chain(j, ">")])
                text = (("abcdefgh"[:i]) or "<") + (("ABCDEFGH"[:j]) or ">")
                add(out, t, [text, text[:-1], text + "x"])
                add(out, star(t), [text, text + text])
                add(out, grp(t), [text])
                add(out, map_(t, 1), [text])
                add(out, opt(t), [text, ""])
                if i + j < 8:
                    add(out, seq(t, grp(seq(cls("any"), cls("any")))), [text + "xy"])
                    add(out, seq(lit("-"), t, lit("-")), ["-" + text + "-"])
                if i + j <= 3:
                    add(out, ruleset(1, ref(1, 1), t), [text])
                    add(out, pair(t, cls("any")), [text + "z"])
                    add(out, alt(t, t), [text])
    # mixed parts in every position
    mk = [lambda: lit("x"), lambda: cls("any"), lambda: grp(lit("x")), lambda: opt(lit("x")), lambda: star(lit("x")),
          lambda: grp(seq(cls("any"), cls("any"))), lambda: alt(lit("x"), lit("y")), lambda: opt(seq(lit("x"), lit("x")))]
    for n in (2, 3):
        for combo in itertools.product(range(len(mk)), repeat=n):
            t = seq(*[mk[c]() for c in combo])
            add(out, t, ["x" * n, "x" * (n + 1)])
    return out


def fam_repeat():
    out = []
    items = [lambda: lit("a"), lambda: cls("any"), lambda: user(1, 2), lambda: user(2, 1), lambda: user(1, 0),
             lambda: opt(lit("a")), lambda: star(lit("a")), lambda: alt(lit("a"), lit("ab")), lambda: lit("aa"),
             lambda: seq(lit("a"), opt(lit(",")))]
    seps = [lambda: lit(","), lambda: T("empty"), lambda: opt(lit(",")), lambda: plus(lit(",")), lambda: user(1, 2),
            lambda: star(lit("a")), lambda: alt(lit(","), lit(",a")), lambda: cls("any"), lambda: user(0, 1)]
    tails = [None, lambda: lit("a"), lambda: lit(","), lambda: cls("any"), lambda: seq(cls("any"), cls("any"))]
    texts = [w for w in words("a,", 4)] + ["a,a,a", "a,a,a,", "aaaaa", "ab,ab", "a,ab,a", "a,,a", ",a", "a,a,ab"]
    for it in items:
        for tl in tails:
            tail = (lambda t: seq(t, tl())) if tl else (lambda t: t)
            add(out, tail(star(it())), texts)
            add(out, tail(plus(it())), texts)
            for sp in seps:
                add(out, tail(repsep(it(), sp())), texts)
    return out


def fam_long(sizes=(60, 130, 260)):
    """Long lists, many alternatives, long texts: cheap to explore, but far
    beyond what tests use."""
    out = []
    kw = dict(cap=400000)
    for n in sizes:
        add(out, star(cls("digit")), ["1" * n, "1" * n + "x"], **kw)
        add(out, plus(lit("ab")), ["ab" * n, "ab" * n + "a"], **kw)
        add(out, repsep(int_("u32"), lit(",")), [",".join(str(i * 7) for i in range(n)),
                                                 ",".join(str(i) for i in range(n)) + ","], **kw)
        add(out, lines(int_("u16")), ["".join(f"{i}\n" for i in range(n)), "".join(f"{i}\n" for i in range(n))[:-1],
                                      "".join(f"{i}\n" for i in range(n)) + "x\n",
                                      "".join(f"{i}\n" for i in range(n)) + "99999\n"], **kw)
        add(out, sections(lines(cls("alpha"))), ["".join("a\nb\n\n" for i in range(n // 4)),
                                                 "".join("a\nb\n\n" for i in range(n // 4)) + "\n",
                                                 "".join("a\nb\n\n" for i in range(n // 4)) + "c"], **kw)
        add(out, string(star(cls("any"))), ["xyz\n" * (n // 4), "é😂" * (n // 4)], **kw)
        add(out, seq(star(cls("any")), lit("!")), ["q" * n + "!", "q" * n], **kw)
        add(out, star(alt(map_(lit("a"), 1), map_(lit("b"), 2))), ["ab" * (n // 2), "ab" * (n // 2) + "c"], **kw)
        alts = [map_(lit(f"k{i:03d}"), i + 1) for i in range(min(n, 120))]
        t = alts[0]
        for a in alts[1:]:
            t = T("alt", [t, a])
        add(out, star(t), ["k000", f"k{min(n, 120) - 1:03d}", "k017k005k031", "k999"], **kw)
        add(out, T("int", a=[10], s="big_int"), ["-" + "9" * n, "1" + "0" * n], **kw)
        add(out, lit("x" * n), ["x" * n, "x" * (n - 1)], **kw)
    return out


def bracket_rules():
    """value = int | "[" list "]";  list = value , ..."""
    return ruleset(1, ref(1, 1),
                   alt(map_(int_("u8"), 1), map_(seq(lit("["), ref(1, 2), lit("]")), 2)),
                   repsep(ref(1, 1), lit(",")))


def fam_wide(kinds=("arms", "seq", "groups", "opts", "maps", "regions")):
    """Patterns (not texts) of unusual size."""
    out = []
    kw = dict(cap=200000)
    name = lambda i: "".join(chr(97 + (i // 26 ** j) % 26) for j in (2, 1, 0))

    def alts(ts):
        t = ts[0]
        for x in ts[1:]:
            t = T("alt", [t, x])
        return t

    for n in (33, 65, 129, 257, 300):
        if "arms" in kinds:
            t = alts([map_(lit(name(i)), i + 1) for i in range(n)])
            add(out, t, [name(0), name(n - 1), name(n - 2), name(n), name(n // 2), name(n // 2)[:2], ""], **kw)
            add(out, star(alts([map_(lit(name(i)), i + 1) for i in range(n)])), [name(n - 1) + name(0) + name(n // 2), name(1) + name(n)], **kw)
            same = alts([map_(lit("a"), i + 1) for i in range(n)])
            add(out, seq(same, cls("any")), ["ab", "a"], **kw)
        if "seq" in kinds:
            t = seq(*[lit(name(i)) if i % 3 else cls("any") for i in range(min(n, 257)) if i % 3 or i < 24])
            whole = "".join(name(i) if i % 3 else "!" for i in range(min(n, 257)) if i % 3 or i < 24)
            add(out, t, [whole, whole[:-1], whole + "x", whole[:40] + "?" + whole[41:]], **kw)
            add(out, lines(seq(*[lit(name(i)) for i in range(n)])), ["".join(map(name, range(n))) + "\n", "".join(map(name, range(n - 1))) + "\n"], **kw)
        if "groups" in kinds:
            t = seq(cls("any"), cls("digit"))
            for i in range(n):
                t = grp(t)
            add(out, seq(t, cls("any")), ["a1x", "a1", "ax"], **kw)
            t = lit("x")
            for i in range(n):
                t = seq(lit("("), grp(t), lit(")"))
            add(out, t, ["(" * n + "x" + ")" * n, "(" * n + "x" + ")" * (n - 1), "(" * (n - 1) + "x" + ")" * n], **kw)
        if "opts" in kinds:
            t = seq(*[seq(lit(name(i)), opt(lit("-"))) if i > 6 else seq(lit(name(i)), grp(opt(lit("-")))) for i in range(1)], *[string(opt(lit(name(i)))) if i < 7 else lit(name(i)) for i in range(1, n)])
            add(out, t, [name(0) + "".join(name(i) for i in range(7, n)), name(0) + "-" + name(2) + name(5) + "".join(name(i) for i in range(7, n))], **kw)
            u = map_(seq(*[lit("-") for _ in range(n)]), 1)
            add(out, seq(opt(u), star(lit("-"))), ["-" * n, "-" * (n - 1), "-" * (n + 1)], **kw)
        if "maps" in kinds:
            t = lit("x")
            for i in range(min(n, 100)):
                t = map_(t, i + 1)
            add(out, star(t), ["x", "xx", ""], **kw)
            t = cls("any")
            for i in range(min(n, 65)):
                t = opt(t)
            add(out, t, ["x", "", "xx"], **kw)
        if "regions" in kinds and n <= 129:
            t = string(star(cls("any")))
            for i in range(n):
                t = line(t) if i % 2 else section(t)
            add(out, t, ["ab\n", "ab", "", "a\nb\n"], **kw)
            add(out, star(t), ["ab\n", "ab\n\ncd\n", "a\n\n\nb\n"], **kw)
    if "rules" in kinds:
        for n in (3, 10, 65, 129, 257, 300):
            # each rule has the text of its own number, or calls the next one
            first = lambda i: map_(lit(name(i)), i + 1)
            rs = lambda main: ruleset(1, main, *[first(i) for i in range(n)])
            for i in sorted({0, 1, n // 2, n - 2, n - 1, min(n - 1, 255), min(n - 1, 256)}):
                add(out, rs(ref(1, i + 1)), [name(i), name(i - 1) if i else "zzz", name(i % 256) + "!"], **kw)
            add(out, rs(star(alts([ref(1, 1), ref(1, n), ref(1, n // 2 + 1)]))), [name(0) + name(n - 1) + name(n // 2), name(1)], **kw)
            kw = dict(cap=20000)
            wrap = (lambda x, i: map_(x, i + 1)) if n <= 33 else (lambda x, i: string(x))
            chain = ruleset(1, ref(1, 1), *[wrap(seq(lit(name(i)), opt(ref(1, i + 2))) if i + 1 < n else lit(name(i)), i) for i in range(n)])
            add(out, chain, ["".join(name(i) for i in range(k)) for k in (1, 2, n // 2, n - 1, n)] + ["".join(name(i) for i in range(n - 1)) + "!"], **kw)
            # a set at every level of a nest of sets, whose rules use the one outside
            if n <= 33:
                def nest(k):
                    inner = nest(k + 1) if k < n else lit("x")
                    return ruleset(k, ref(k, 1), alt(map_(seq(lit("("), inner, lit(")")), 2 * k), map_(seq(lit("<"), ref(max(1, k - 1), 1), lit(">")), 2 * k + 1)))
                add(out, nest(1), ["(" * n + "x" + ")" * n, "(" * (n - 1) + "<" + "(" * 2 + "x" + ")" * 2 + ">" + ")" * (n - 1), "((<((<<(x)>>))>))", "(<(<((x))>)>)"], **kw)
            # many sets side by side
            side = lambda k: ruleset(k, ref(k, 1), alt(map_(lit(name(k)), k), map_(seq(lit("("), ref(k, 1), lit(")")), k + n)))
            t = star(alts([side(k) for k in range(1, n + 1)])) if n <= 129 else None
            if t:
                add(out, t, [name(1) + "(" + name(n) + ")" + name(n // 2), "((" + name(n) + "))(" + name(1) + ")", name(n + 1), "(" + name(n)], **kw)
    return out


def fam_rules():
    out = []
    br = bracket_rules
    texts = ["5", "[]", "[1]", "[1,2]", "[[],[1,[2]]]", "[1,[2,[3,[4]]]]", "[1", "[1,]", "]", "", "[256]", "[1,[256]]",
             "[[[[[[[[]]]]]]]]", "[[[[[[[[", "[1]]", "[1][2]"]
    add(out, br(), texts, cap=4000)
    add(out, lines(br()), ["".join(t + "\n" for t in ts) for ts in itertools.product(["[1]", "5", "[[2],3]", "[1,]", "[256]"], repeat=2)], cap=4000)
    add(out, sections(lines(br())), ["[1]\n5\n\n[2,[3]]\n", "[1]\n\n5\n\n\n", "[1]\n5,\n\n6\n"], cap=4000)
    add(out, section(seq(line(br()), star(line(br())))), ["[1]\n5\n[]\n", "[1]\n5\n[}\n", "[1"], cap=4000)
    b = br()
    add(out, seq(by(b), lit(";"), by(b)), ["[1];[2]", "5;[5,[6]]", "[1];", ";[1]", "[1];[2", "[1];[2,300]"], cap=4000)
    for depth in (20, 60):
        add(out, br(), ["[" * depth + "]" * depth, "[" * depth + "7" + "]" * depth, "[" * depth + "]" * (depth - 1)], cap=400000)
    # two rule sets, one using the other's rules
    def two():
        inner = ruleset(2, ref(2, 1), alt(map_(lit("x"), 3), map_(seq(lit("("), ref(1, 1), lit(")")), 4)))
        return ruleset(1, ref(1, 1), alt(map_(lit("y"), 1), map_(seq(lit("<"), inner, lit(">")), 2)))
    add(out, two(), ["y", "<x>", "<(y)>", "<(<x>)>", "<(<(y)>)>", "<y>", "<(x)>", "<(<(<(<x>)>)>)>", "<", "<(<(y)>)"], cap=4000)
    add(out, lines(two()), ["y\n<x>\n<(<x>)>\n", "<(y)>\n<(x)>\n"], cap=4000)
    # a rule set inside a line inside a rule of another set
    def lined():
        inner = ruleset(2, ref(2, 1), alt(map_(lit("x"), 3), map_(seq(lit("("), ref(1, 2), lit(")")), 4)))
        return ruleset(1, star(ref(1, 1)), line(seq(lit("-"), inner)), alt(map_(lit("p"), 5), map_(seq(lit("q"), ref(1, 2)), 6)))
    add(out, lined(), ["-x\n", "-(p)\n", "-(qqp)\n-x\n-(qp)\n", "-(q)\n", "-x\n-(p\n", "-x\nx\n"], cap=4000)
    # separate sets side by side, alternating
    s1 = ruleset(1, ref(1, 1), alt(map_(seq(lit("a"), ref(1, 1)), 1), map_(lit("b"), 2)))
    s2 = ruleset(2, ref(2, 1), alt(map_(seq(lit("a"), ref(2, 1)), 3), map_(lit("c"), 4)))
    add(out, star(alt(s1, s2)), [w for w in words("abc", 4)], cap=3000)
    add(out, seq(string(s1), s2), [w for w in words("abc", 4)], cap=3000)
    # rules of two and three values, unit rules, rules used in every kind of place
    u = ruleset(1, ref(1, 1), seq(cls("any"), ref(1, 2)), seq(lit("-"), lit("x")))
    add(out, u, ["a-x", "a-", "-x"], cap=3000)
    u = ruleset(1, seq(ref(1, 1), ref(1, 1)), seq(cls("alpha"), cls("digit"), cls("any")))
    add(out, u, ["a1.b2.", "a1.", "a1.b"], cap=3000)
    u = ruleset(1, star(ref(1, 2)), seq(cls("alpha"), lit("!")), alt(map_(ref(1, 1), 1), map_(seq(lit("("), star(ref(1, 2)), lit(")")), 2)))
    add(out, u, ["a!", "(a!b!)c!", "((a!))", "(a!", ""], cap=3000)
    return out


def fam_reused(step=1):
    """One rule used at one place within differently bounded texts."""
    rest = lambda: star(cls("any"))
    bodies = [lambda: section(map_(lit("a\nb"), 1)), lambda: section(map_(lit("a\nb\n"), 1)), lambda: line(map_(lit("a"), 1)), lambda: string(lit("a\nb")),
              lambda: section(lines(cls("alpha"))), lambda: lines(cls("alpha")), lambda: string(seq(rest(), lit("b"))), lambda: string(rest()),
              lambda: line(string(rest())), lambda: section(string(rest())), lambda: string(seq(lit("a"), opt(lit("\n")))), lambda: string(plus(cls("alpha"))),
              lambda: alt(map_(lit("a\nb"), 1), map_(lit("a"), 2)), lambda: string(sections(lines(opt(lit("a")))))]
    uses = [lambda r: alt(map_(line(r()), 5), map_(r(), 6)), lambda r: alt(map_(section(r()), 5), map_(r(), 6)), lambda r: alt(map_(r(), 6), map_(line(r()), 5)),
            lambda r: alt(map_(section(line(r())), 7), alt(map_(section(r()), 5), map_(line(r()), 6))), lambda r: seq(opt(map_(line(r()), 5)), r()),
            lambda r: seq(opt(map_(line(r()), 5)), opt(map_(r(), 6)), string(rest())), lambda r: seq(star(map_(line(r()), 5)), opt(map_(section(r()), 6)), string(rest())),
            lambda r: alt(map_(lines(section(r())), 5), map_(sections(r()), 6)), lambda r: section(alt(map_(line(r()), 5), map_(r(), 6))),
            lambda r: alt(map_(seq(r(), lit("x")), 5), map_(seq(r(), rest()), 6)), lambda r: seq(cls("any"), alt(map_(line(r()), 5), map_(r(), 6))),
            lambda r: alt(map_(seq(line(r()), lit("b")), 5), map_(seq(line(r()), r()), 6))]
    texts = ["a", "a\n", "a\nb", "a\nb\n", "a\nb\n\n", "a\n\nb", "ab\n", "a\na\nb\n", "\na\nb", "a\nb\n\na\nb\n", "a\nbx", "\n", "a\nb\nb"]
    out = []
    i = 0
    for body in bodies:
        for use in uses:
            i += 1
            if i % step == 0:
                add(out, ruleset(1, use(lambda: ref(1, 1)), body()), texts, cap=1500)
    return out


def fam_chars():
    out = []
    all_chars = list(range(0, 128)) + NON_ASCII
    for c in CLASSES:
        g = flatten(cls(c))
        add(out, g, [[x] for x in all_chars] + [[]])
        add(out, flatten(seq(cls("any"), cls(c), cls("any"))), [[97, x, 98] for x in NON_ASCII + cps("aZ09gG_ \n")])
        add(out, flatten(string(plus(cls(c)))), [[x, x] for x in NON_ASCII + cps("aZ09gG_")] + [[x, 33] for x in NON_ASCII])
        add(out, flatten(star(cls(c))), [[x, y] for x in NON_ASCII[::7] for y in cps("aA1")])
        add(out, flatten(seq(cls(c), cls("any"))), [[x, y] for x in NON_ASCII[3::5] for y in (98, 233)])
    for opts in ["abc", "cba", "aab", "abab", "é京😂", "😂é京a", "", "\n ", "aéa", "10", "\"'\\", "Kk\u212a"]:
        g = flatten(charof(opts))
        add(out, g, [[ord(x)] for x in opts + "axzé😂K"] + [[]] + [[ord(x), ord(x)] for x in opts[:2]])
        add(out, flatten(star(charof(opts))), [cps(opts), cps(opts * 2), cps(opts[::-1]) + [33], cps(opts) + cps("é")])
    many = "".join(map(chr, list(range(33, 127)) + NON_ASCII))
    for opts in (many, many[::-1], many + many[::-1], "ab" * 200 + "c", "é" * 300 + "😂a"):
        g = flatten(charof(opts))
        add(out, g, [[ord(x)] for x in opts[:3] + opts[125:130] + opts[253:258] + opts[-2:]] + [[32], []], cap=4000)
        add(out, flatten(plus(charof(opts))), [cps(opts[100:140]), cps(opts[240:270]) + [32]], cap=40000)
    for s in ["a", "ab", "é", "é京", "😂", "\n", "a\nb", "\t", "\"", "\\", "'", "  ", "aa", "e\u0301", "\u212a"]:
        g = flatten(lit(s))
        muts = {s, s + "a", s[:-1], s.upper(), s.lower(), "a" + s, s + s, s[::-1], ""}
        add(out, g, sorted(muts))
        if len(s) == 1:
            add(out, flatten(chr_(s)), sorted(muts))
            add(out, flatten(seq(star(chr_(s)), cls("any"))), sorted(muts))
        add(out, flatten(seq(cls("any"), lit(s), star(cls("any")))), sorted("é" + m for m in muts))
    return out


def fam_ints():
    out = []
    for ty in INT_TYPES:
        rg = int_range(ty)
        for rx, fmt in ((10, "d"), (2, "b"), (16, "x")):
            def num(v):
                return ("-" if v < 0 else "") + format(abs(v), fmt)
            g = flatten(int_(ty, rx))
            texts = ["", "0", "00", "-0", "+0", "+", "-", "--1", "+-1", "1_0", " 1", "1 ", "1\n", "1é", "é", "1.5", "0x1",
                     "0b1", "1a", "1g", "Ff", "aF", "2", "12", "-1", "+1", "9", "a", "٣", "1٣", "１", "-٣", "+01", "-01", "1e1"]
            edge = [rg[0], rg[1], rg[0] - 1, rg[1] + 1, rg[0] + 1, rg[1] - 1, 2 * rg[1] + 1, -rg[1], -rg[1] - 1, -rg[1] - 2,
                    rg[1] * 16, rg[1] * 10] if rg else [10 ** 40, -10 ** 40, 2 ** 128, -2 ** 127, 2 ** 64, 16 ** 33 - 1]
            for v in edge:
                texts += [num(v), num(abs(v)), "+" + num(abs(v)), "-" + num(abs(v)), ("-" if v < 0 else "") + "000" + num(abs(v)),
                          num(v).upper(), num(abs(v)) + "x"]
            texts += [sg + num(2 ** k + j) for k in (7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127, 128) for j in (-1, 0, 1) for sg in ("", "-")]
            texts += ["0" * 40 + "1", "-" + "0" * 130 + "1", "1" * 41, "10" * 70, "0" * 300]
            add(out, g, sorted(set(texts)))
            # in context: what follows or precedes must not change the numeral
            v = edge[1] if rg else edge[0]
            over = edge[3] if rg else edge[0]
            add(out, flatten(seq(lit("<"), int_(ty, rx), lit(">"))), [f"<{num(v)}>", f"<{num(over)}>", "<>", "<1", "<-1>"])
            add(out, flatten(seq(int_(ty, rx), star(cls("any")))), [num(over), num(v) + "z", num(over) + "z", "1-1", "1+1"])
            add(out, flatten(alt(map_(int_(ty, rx), 1), map_(string(plus(cls("any"))), 2))), [num(over), num(v), "-", "1z"])
            add(out, flatten(repsep(int_(ty, rx), lit(","))), [f"{num(v)},1", f"1,{num(over)}", "1,-1,+1"])
    return out


def exact(num, exp2):
    """Decimal notation of num * 2**exp2, exactly."""
    if exp2 >= 0:
        return str(num << exp2)
    s = str(num * 5 ** -exp2).rjust(1 - exp2, "0")
    return (s[:exp2] + "." + s[exp2:]).rstrip("0").rstrip(".")


def halfway(rng, n):
    """Numerals at, just below and just above the middle of two floats (and at
    floats), where rounding twice or cutting digits off shows."""
    out = set()
    for p, qmin, qmax in ((24, -149, 104), (53, -1074, 971)):
        picks = [(1 << (p - 1), qmin), (1, qmin), ((1 << p) - 1, qmax), ((1 << (p - 1)) - 1, qmin), ((1 << p) - 1, -p), ((1 << p) - 1, 0), (1 << (p - 1), 0), ((1 << (p - 1)) + 1, 1 - p)]
        for _ in range(n):
            q = rng.choice([rng.randint(-40, 10), rng.randint(-40, 10), rng.randint(qmin // 4, qmax // 4)])
            picks.append((rng.getrandbits(p - 1) | 1 << (p - 1), q))
        for m, q in picks:
            for k in (2 * m, 2 * m + 1, 2 * m - 1):
                t = exact(k, q - 1)
                if len(t) > 400:        # keep the first digits only: next to the middle
                    from decimal import Decimal, getcontext
                    getcontext().prec = 30
                    t = str(Decimal(k) * (Decimal(2) ** (q - 1)))
                    out.add(t)
                    continue
                out |= {t, t + ("0000000000000000000000000000001" if "." in t else ".0000000000000000000000000000001")}
                if t[-1] != "0":
                    out.add(t[:-1] + chr(ord(t[-1]) - 1) + ("9" if "." in t else ".9") * 1 + "9" * 30)
                if "." not in t and len(t) > 3:
                    out.add(t[0] + "." + t[1:] + "e%d" % (len(t) - 1))
                    out.add(t + "0" * 40 + "E-40")
                elif t.startswith("0."):
                    d = t[2:].lstrip("0")
                    out.add(d[0] + "." + d[1:] + "e-%d" % (len(t) - 1 - len(d)))
    return sorted(out)


def fam_floats(rng):
    out = []
    for t in halfway(rng, 24):
        for ty in ("f32", "f64"):
            add(out, T("float", s=ty), [t], cap=3000)
        if rng.random() < .1:
            add(out, repsep(T("float", s="f32"), lit(",")), [t + ",-" + t], cap=3000)
    atoms = ["", "+", "-", "1", "0", ".", "e", "E", "5", "inf", "infinity", "nan", "NaN", "INF", "x"]
    texts = {a + b + c for a in atoms for b in atoms for c in atoms}
    texts |= {"1.5e10", "1.5e+10", "1.5e-10", "1.e5", ".5e5", "1e", "1e+", "1e-", "1.5e", ".e5", "1.5.5", "1e5.5", "1e5e5",
              "0.1", "0.30000000000000004", "1e308", "1e309", "-1e309", "4.9e-324", "1e-400", "3.4028235e38", "3.4028236e38",
              "1.17549435e-38", "123456789012345678901234567890", "0.000000000000000000000000000001", "16777217", "9007199254740993", "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999999999999", "0.0000000001e320", "1" + "0" * 330 + "e-330",
              "0." + "0" * 330 + "1e331", "1e0000000000000000000000000005", "00000000000000000000000000001", "2.2250738585072011e-308", "2.2250738585072014e-308", "5e-324", "2e-324", "3e-324",
              "1.7976931348623157e308", "1.7976931348623159e308", "1.7976931348623158e308", "-0", "-0.0", "-0e5", "-1e-400", "+0",
              "infinit", "infinityy", "nano", "Infinity", "iNf", "+nan", "-NAN", "1_0", "0x10", "1f", "١", "1٣", "1.٣", "1e٣", "∞", "İnf", "ınf"}
    for ty in ("f32", "f64"):
        g = flatten(T("float", s=ty))
        add(out, g, sorted(texts))
        gg = flatten(seq(T("float", s=ty), string(star(cls("any")))))
        add(out, gg, sorted(texts))
        add(out, flatten(seq(cls("any"), T("float", s=ty), lit(";"))), ["x" + t + ";" for t in sorted(texts)[::7]])
    for t in ["true", "false", "True", "tru", "truee", "falsetrue", "", "t", "1", "FALSE", "true ", " true", "falsetru"]:
        add(out, T("bool"), [t])
        add(out, star(T("bool")), [t])
        add(out, seq(T("bool"), string(star(cls("any")))), [t])
    return out


def fam_strings():
    out = []
    inner = [lambda: star(cls("any")), lambda: plus(lit("ab")), lambda: seq(cls("any"), cls("any")), lambda: lit("a"),
             lambda: T("empty"), lambda: alt(lit("a"), lit("ab")), lambda: user(0, 2, 1), lambda: map_(cls("any"), 1),
             lambda: line(star(cls("any"))), lambda: section(star(cls("any"))), lambda: string(plus(cls("any"))),
             lambda: opt(lit("é")), lambda: repsep(cls("alpha"), lit("\n")), lambda: lines(star(cls("alpha"))), lambda: int_("i8")]
    around = [lambda p: string(p), lambda p: seq(cls("any"), string(p), cls("any")), lambda p: seq(string(p), string(star(cls("any")))),
              lambda p: star(string(p)), lambda p: line(string(p)), lambda p: lines(string(p)), lambda p: section(seq(cls("any"), string(p))),
              lambda p: seq(line(star(cls("any"))), line(string(p))), lambda p: sections(seq(line(string(star(cls("any")))), star(line(string(p))))),
              lambda p: repsep(string(p), lit("b")), lambda p: ruleset(1, ref(1, 1), string(p)), lambda p: opt(string(p)),
              lambda p: map_(string(p), 9), lambda p: seq(star(lit("é")), string(p))]
    texts = ["", "a", "ab", "abab", "é", "éa", "aéb", "😂é\na", "a\nb", "a\nb\n", "ab\n\nab\n", "éé\nab", "-1", "xaby", "abb", "é\né\n", "a\n\nb\nc",
             "a\rb", "a\r\n", "\r\n\r\n", "\0a", " a ", "a\tb\n", "\ufeffa", "a\u2028"]
    for i in inner:
        for a in around:
            add(out, a(i()), texts)
    return out


def fam_colls():
    out = []
    lists = [lambda x: star(x), lambda x: plus(x), lambda x: repsep(x, lit(","))]
    items = [lambda: cls("any"), lambda: string(seq(cls("alpha"), cls("digit"))), lambda: opt(cls("alpha")), lambda: charof("ab"),
             lambda: int_("u8"), lambda: grp(seq(cls("alpha"), cls("alpha")))]
    texts = ["", "a", "aa", "ab", "ba", "aba", "a,b,a", "a1a1b2", "a1,b2,a1", "1,1,2", "3,1,2,3", "abc", "ccbbaa", "aab,", "1,01,1", "ab,ab,ba"]
    for kind in ("hash_set", "btree_set", "vec_deque"):
        for ls in lists:
            for it in items:
                add(out, coll(kind, ls(it())), texts)
    for kind in ("hash_map", "btree_map"):
        for ls in lists:
            for it in (lambda: seq(cls("alpha"), cls("any")), lambda: seq(cls("alpha"), lit("="), int_("u8")),
                       lambda: grp(seq(cls("alpha"), star(cls("digit")))), lambda: pair(cls("alpha"), lit("x")),
                       lambda: seq(string(plus(cls("alpha"))), int_("u8"))):
                add(out, coll(kind, ls(it())), ["", "a1", "a1a2", "a1b2a3", "a1,a2", "a=1,b=2,a=3", "b=2,a=1", "a=1,a=1", "a12b3a", "axaxbx", "axbx",
                                                "b1a2c3b4a5", "a,a", "a1,b,a", "ab1ab2b3", "ab1,b3,ab2"])
    add(out, coll("btree_set", star(coll("hash_set", plus(charof("ab"))))), ["ab", "ba"])
    add(out, coll("hash_set", repsep(coll("hash_set", star(charof("ab"))), lit(","))), ["ab,ba", "a,b,a", ",a,", "aab,ab"])
    add(out, coll("hash_map", repsep(seq(coll("vec_deque", plus(charof("ab"))), lit(":"), coll("btree_set", star(cls("digit")))), lit(","))),
        ["ab:12,ba:3,ab:21", "a:,a:1", "a:11"])
    add(out, lines(coll("hash_set", star(cls("alpha")))), ["aab\nba\n\n", "a\n1\n"])
    add(out, coll("hash_map", lines(seq(string(plus(cls("alpha"))), lit(" "), int_("i16")))), ["a 1\nb 2\na 3\n", "a 1\nb x\n"])
    add(out, coll("vec_deque", sections(coll("btree_set", lines(int_("u8"))))), ["1\n2\n1\n\n2\n2\n", "3\n"])
    return out


def fam_messages():
    """Every kind of failure, at the end and in the middle, on several lines."""
    out = []
    leaves = [lambda: lit("xy"), lambda: lit("\n"), lambda: lit("\"q\""), lambda: lit("é\t"), lambda: chr_("x"), lambda: chr_("'"), lambda: chr_("\n")]
    leaves += [(lambda c: (lambda: cls(c)))(c) for c in CLASSES]
    leaves += [lambda: charof("xyz"), lambda: charof(""), lambda: charof("é\n\""), lambda: T("bool"), lambda: T("float", s="f32"), lambda: T("float", s="f64")]
    leaves += [(lambda ty, rx: (lambda: int_(ty, rx)))(ty, rx) for ty in INT_TYPES for rx in (10, 2, 16)]
    pres = ["", "a", "é", "😂\n", "\n\n", "ab\ncé\n", "\né😂京"]
    odd = ["a\rb", "\r\n", "\n\r", "\t\ta", "\0", "e\u0301", "\u2028a", "a\u0085b", "\x0b\x0c", "\u200b", "\ufeff", "👩\u200d👧", "\u00a0", "\x1b[0m",
           "\u202e", "\U0010ffff", "\ud7ff\ue000", "ﬃ", "\n\u2029\n", "\x7f"]
    tails = ["", "_", "\n", "_é", "_\n_"]
    for i, f in enumerate(leaves):
        for p in pres + [odd[(i + j) % len(odd)] for j in (0, 7, 13)]:
            t = seq(lit(p), f()) if p else f()
            add(out, t, [p + q for q in tails])
    for ty in INT_TYPES:
        rg = int_range(ty)
        if rg:
            for rx, fmt in ((10, "d"), (2, "b"), (16, "x")):
                big = format(rg[1] + 1, fmt)
                for p in ["", "é\n"]:
                    add(out, seq(lit(p), int_(ty, rx)) if p else int_(ty, rx), [p + big, p + big + "\n", p + "000" + big + "_"])
    for o in odd:
        add(out, seq(string(star(alt(cls("alpha"), *[chr_(c) for c in sorted(set(o))]))), lit("!")), [o + "_", o, o * 3 + "1", "a" + o + "\n", o + "!!"])
        add(out, lines(string(star(alt(cls("alpha"), *[chr_(c) for c in sorted(set(o) - {"\n"})])))), [o + "_", o, "x\n" + o + "1\n", "a" + o + "\n" + o + "é1"])
    ok = lambda: star(cls("alpha"))
    for p in ["", "é", "é\n", "a\n\n"]:
        pre = [lit(p)] if p else []
        add(out, seq(*pre, line(ok())) if pre else line(ok()), [p, p + "ab", p + "ab1", p + "ab1\n", p + "ab\ncd", p + "é1\n", p + "\n"])
        add(out, seq(*pre, section(ok())) if pre else section(ok()), [p, p + "ab", p + "ab1", p + "ab\n", p + "ab\n\ncd", p + "é1\n\n", p + "\n", p + "ab1\n\n"])
        add(out, seq(*pre, lines(int_("u8"))) if pre else lines(int_("u8")), [p + "1\n2\nx\n", p + "1\n256\n", p + "1\n\n2\n", p + "1\n2x\n3\n", p + "é\n"])
        add(out, seq(*pre, sections(lines(int_("u8")))) if pre else sections(lines(int_("u8"))),
            [p + "1\n2\n\n3\n4é\n\n5\n", p + "1\n\n256\n", p + "1\n\n\n2\n", p + "1\n2\n\nx\n", p + "1\n\n2\n\n999"])
    # several failures at one place: the first is reported
    kinds = [lambda: lit("x"), lambda: cls("digit"), lambda: charof("pq"), lambda: int_("u8"), lambda: T("bool"), lambda: line(cls("digit")), lambda: section(cls("digit"))]
    for a in kinds:
        for b in kinds:
            add(out, alt(map_(a(), 1), map_(b(), 2)), ["", "_", "é", "300"])
            add(out, seq(cls("any"), alt(map_(a(), 1), map_(b(), 2))), ["é", "é_", "\n_", "é300"])
            add(out, seq(cls("any"), opt(a()), b()), ["é", "é_", "\n_", "é300x"])
            add(out, seq(star(a()), b()), ["", "_", "x_", "7_", "777777777x"])
    return out


def fam_aoc():
    out = []
    trees = [lambda: string(star(cls("any"))), lambda: lines(string(star(cls("any")))), lambda: sections(lines(string(star(cls("any"))))),
             lambda: line(cls("alpha")), lambda: lit("a"), lambda: lit("a\n"), lambda: seq(lit("a"), star(lit("\n"))), lambda: lines(int_("u8")),
             lambda: T("empty"), lambda: star(lit("\n")), lambda: section(string(star(cls("any")))), lambda: seq(string(star(cls("any"))), lit("\n")),
             lambda: lines(repsep(cls("alpha"), lit(" "))), lambda: line(string(star(cls("any"))))]
    texts = ["", "\n", "\n\n", "a", "a\n", "a\n\n", " a", "a ", "a \n", "\na", "é", "é\n", "a\nb", "a\nb\n", "1\n2", "1\n2\n", "1\n2\n\n", "1\n256", "a\r", "a\r\n",
             "a\n ", "a\n\n\n", "\t", "\u2028", "a\u2028", "a\u0085", "a b\nc d", "1\nx",
             "\ufeffa", "\ufeff", "a\ufeff\n", "\0", "a\0", "\0\n", "a\x0b", "a\x0c", "\x0ca", "a\u2029", "\n\r", "a\n\r", "\r", "a\n\u200b", "a\x1a", "a\u00a0",
             "\u3000a\u3000", "1\n2\r\n", "1\r\n2", "\r\n\r\na", "a\n\t", "\ta", "a" * 50, "1\n" * 20, "1\n" * 20 + "2", "\n" * 10, "a\\n", "a\\"]
    for t in trees:
        add(out, t(), texts, mode="aoc")
    return out


# ------------------------------------------------------------ large families

def deep_rule():
    return ruleset(1, ref(1, 1), string(alt(lit("x"), seq(lit("a"), ref(1, 1), lit("b")))))


def two_sets():
    inner = ruleset(2, ref(2, 1), string(alt(seq(lit("b"), ref(1, 1)), lit("-"))))
    return ruleset(1, ref(1, 1), string(alt(lit("x"), seq(lit("a"), inner))))


def ruled_lines():
    s = ruleset(1, ref(1, 2), map_(lit("b"), 2), alt(map_(seq(lit("a"), ref(1, 1)), 1), map_(lit("x"), 3)))
    return sections(lines(s))


def numbered(n):
    return "".join(f"{7 * i % (n // 2 + 1)}={i}," for i in range(1, n + 1))


def LARGE():
    """fam -> (grammar, text of size n, sizes); the same families as in
    spec/Large.tla, which says what their outcome is."""
    A = lambda: cls("alpha")
    D = lambda: cls("digit")
    any_ = lambda: cls("any")
    m = lambda c, k: map_(lit(c), k)
    big, mid = (300, 30000), (40, 3000)
    return {
        "chars": (plus(any_()), lambda n: "x" * n, big),
        "mapchars": (star(map_(any_(), 1)), lambda n: "x" * n, mid),
        "rounds": (star(lit("ab")), lambda n: "ab" * n, mid),
        "string": (string(star(any_())), lambda n: "é😂\n" * n, (100, 10000)),
        "sep": (repsep(D(), lit(",")), lambda n: "7," * n + "7", (300, 20000)),
        "sepopen": (repsep(D(), lit(",")), lambda n: "7," * n, (300, 30000)),
        "lines": (lines(D()), lambda n: "7\n" * n, (300, 10000)),
        "linesopen": (lines(D()), lambda n: "7\n" * n + "7", mid),
        "linesbad": (lines(D()), lambda n: "7\n" * n + "éx\n", (254, 255, 256, 300, 70000)),
        "column": (line(star(A())), lambda n: "é" * n + "7\n", (127, 128, 255, 256, 70000)),
        "sections": (sections(lines(D())), lambda n: "7\n7\n\n" * n + "7\n", mid),
        "sectionsbad": (sections(lines(D())), lambda n: "7\n7\n\n" * n + "7\nx\n", (300, 8000)),
        "sectionlong": (section(lines(D())), lambda n: "7\n" * n, mid),
        "closures": (star(alt(m("a", 1), m("b", 2))), lambda n: "ab" * n, mid),
        "needle": (alt(string(seq(star(A()), star(A()), star(A()))), string(star(any_()))), lambda n: "a" * n + "!", (12, 30, 50)),
        "search": (seq(star(A()), star(A()), lit("!")), lambda n: "a" * n, (50, 300)),
        "giveback": (seq(string(star(any_())), lit("!"), string(star(any_()))), lambda n: "!" + "x" * n, (300, 30000)),
        "nothing": (seq(star(any_()), lit("!")), lambda n: "x" * n, (300, 70000)),
        "bignum": (int_("big_int"), lambda n: "7" * n, (100, 1000)),
        "overflow": (seq(int_("u8"), string(star(any_()))), lambda n: "7" * n + "é" * n, (20, 38, 39, 40, 41, 64, 100, 1000)),
        "literal": (lambda n: lit("xé" * n), lambda n: "xé" * n, (40, 3000)),
        "literalbad": (lambda n: seq(any_(), lit("xé" * n)), lambda n: "😂" + "xé" * (n - 1) + "xx", (40, 100, 3000)),
        "set": (coll("hash_set", star(any_())), lambda n: "ba" * n, (300, 5000)),
        "deque": (coll("vec_deque", star(any_())), lambda n: "ba" * n, mid),
        "hashmap": (coll("hash_map", star(seq(int_("u32"), lit("="), int_("u32"), lit(",")))), numbered, (257, 700)),
        "treemap": (coll("btree_map", star(seq(int_("u32"), lit("="), int_("u32"), lit(",")))), numbered, (257, 700)),
        "rules": (ruleset(1, star(ref(1, 1)), alt(m("a", 1), m("b", 2))), lambda n: "a" * n + "b", mid),
        "deep": (deep_rule(), lambda n: "a" * n + "x" + "b" * n, (60, 300, 1500)),
        "deepopen": (deep_rule(), lambda n: "a" * n + "x" + "b" * (n - 1), (63, 64, 127, 128, 255, 256, 1500)),
        "twosets": (two_sets(), lambda n: "ab" * n + "x", (31, 63, 127, 255, 700)),
        "ruledlines": (ruled_lines(), lambda n: "ab\nx\n\n" * n, mid),
        "ruledbad": (ruled_lines(), lambda n: "ab\nx\n\n" * n + "aé\n", (100, 5000)),
        "users": (seq(star(user(2)), lit("!")), lambda n: "x" * (2 * n), (300, 10000)),
        "arms": (star(alt(m("a", 1), m("b", 2), m("x", 3))), lambda n: "x" * n, mid),
        "prefix": (seq(any_(), star(lit("x")), lit("!")), lambda n: "é" + "x" * n + "7", (254, 255, 256, 30000)),
    }


def all_chars():
    """Families over all characters; see spec/Large.tla."""
    import unicode_tables
    t = unicode_tables.tables()
    up, lo, le, nu, pl = (t[k] for k in ("Upper", "Lower", "Letter", "Number", "Plain"))
    foreign = [c for c in up + lo + le + nu + pl if c >= 128]
    K, B = 8192, 16384
    def part(xs):
        return (lambda n: xs[:n] if n < 13 else xs[(n - 13) * K:(n - 12) * K]), tuple(range(13, 13 + -(-len(xs) // K)))
    def block(n):
        return [c for c in (range(n) if n < 13 else range((n - 13) * B, (n - 12) * B)) if not 0xD800 <= c < 0xE000]
    opts = lambda n: [c for c in range(256, 256 + n) if not 0xD800 <= c < 0xE000]
    isin = lambda p: (lambda n: string(star(p())))
    isnt = lambda p: (lambda n: string(star(seq(probe("not", p()), cls("any")))))
    out = {}
    for c, yes, no in (("alpha", up + lo + le, nu + pl), ("alnum", up + lo + le + nu, pl), ("upper", up, lo + le + nu + pl), ("lower", lo, up + le + nu + pl)):
        out["in_" + c] = (isin(lambda c=c: cls(c)), *part(yes))
        out["out_" + c] = (isnt(lambda c=c: cls(c)), *part(no))
    out["out_digits"] = (isnt(lambda: alt(cls("digit"), alt(cls("digit_hex"), cls("digit_bin")))), *part(foreign))
    out["out_ints"] = (isnt(lambda: alt(map_(int_("u8"), 1), alt(map_(int_("big_int", 16), 2), map_(int_("i64"), 3)))), *part(foreign))
    out["out_floats"] = (isnt(lambda: alt(map_(T("float", s="f32"), 1), map_(T("float", s="f64"), 2))), *part(foreign))
    out["out_bool"] = (isnt(lambda: T("bool")), *part(foreign))
    out["charof"] = (lambda n: seq(*[T("charof", a=opts(n))] * 2), lambda n: [opts(n)[-1], opts(n)[0]], (300, 70000))
    some = (13, 14, 15, 16, 17, 20, 21, 69, 80)
    rest = lambda: string(star(cls("any")))
    bare = lambda n, x: [c for c in block(n) if c != x]
    out["alltext"] = (rest(), block, some)
    out["allline"] = (line(rest()), lambda n: bare(n, 10) + [10], some)
    out["allsection"] = (section(line(rest())), lambda n: bare(n, 10) + [10, 10], some)
    out["allcol"] = (seq(string(star(seq(probe("not", lit("!")), cls("any")))), lit("!"), lit("?")), lambda n: bare(n, 33) + [33, 120], some)
    return out


ONLY = {"P12": {"in_alpha", "in_alnum", "in_upper", "in_lower", "out_alpha", "out_alnum", "out_upper", "out_lower", "out_digits", "charof", "alltext"},
        "P16": {"hashmap", "treemap", "set", "deque"}, "P13": {"bignum", "overflow", "out_ints"}, "P14": {"out_floats", "out_bool"}, "P11": {"rules", "deep", "deepopen", "twosets", "ruledlines", "ruledbad"},
        "P19": {"allline", "lines", "linesbad", "column", "sections", "sectionsbad", "sectionlong", "string", "ruledlines", "chars", "search"}}


ALSO = {"P01": {"alltext"}, "P05": {"alltext"}, "P06": {"allline"}, "P07": {"allsection"}, "P09": {"allcol"}, "P10": {"allcol"}, "P15": {"alltext"},
        "P12": set(), "P13": set(), "P14": set(), "P19": set()}


def large(real, pid):
    """Cases for Large.tla: of large size (on the library) or small (on Explore)."""
    out = []
    fams = LARGE()
    chars = all_chars() if pid in ALSO else {}
    only = ONLY.get(pid, set(fams)) | ALSO.get(pid, set())
    for f, (t, text, sizes) in {**fams, **chars}.items():
        if f not in only:
            continue
        for n in sizes if real else (3, 4, 7, 12):
            g = flatten(t(n) if callable(t) else t)
            src = text(n)
            src = cps(src) if isinstance(src, str) else src
            c = {"fam": f, "n": n, "g": g, "src": src, "mode": "parse", "fuel": 200 * 1000 * 1000, "stack": (64 if f in ("deep", "deepopen", "twosets") else 2) << 20}
            if pid == "P19" and src[-1] != 10:
                continue
            if pid == "P19" and real:
                out.append(dict(c, mode="aoc"))
                if src[-2] == 10:
                    continue
                c = dict(c, mode="aoc", src=src[:-1])
            out.append(c)
    return out


# ---------------------------------------------------------------- the table

PROFILES = {
    "P01": [general, ambiguous, repetitive], "P02": [ambiguous, general, users], "P03": [shapes, general],
    "P04": [repetitive], "P05": [nullable, general], "P06": [regions("line")], "P07": [regions("section")],
    "P08": [mapped, general], "P09": [failing, general], "P10": [failing, general], "P11": [ruled], "P12": [chars],
    "P13": [integers], "P14": [floats], "P15": [strings], "P16": [collecting], "P19": [general, regions("line"), strings],
    "P20": [users], "P21": [general, ambiguous, repetitive, users, regions("line"), regions("section"), ruled, strings, mapped, tellers],
    "P22": [tellers],
}
KEEP = {"P09": keep_failing, "P10": keep_failing}


def families(pid, rng, quick):
    big = quick is False
    k = 1 if quick else 6
    if pid in ("P01", "P02"):
        return fam_core(rng, 300 * k) + (fam_long() if pid == "P01" else []) + fam_wide() + fam_probes(2 if quick else 1) + fam_reused(4) + fam_arms((3 if pid == "P01" else 7) if quick else 1)
    if pid == "P03":
        return fam_tuples() + fam_wide(("seq", "groups", "opts"))
    if pid == "P04":
        return fam_repeat() + fam_long()
    if pid == "P05":
        return fam_repeat()[::4] + fam_regions("line", rng, 80 * k) + fam_regions("section", rng, 80 * k) + fam_long((40, 150)) + fam_wide() + fam_probes(5) + fam_marks()
    if pid == "P06":
        return fam_regions("line", rng, 250 * k) + fam_odd("line") + fam_reused(5) + fam_arms(9 if quick else 1)
    if pid == "P07":
        return fam_regions("section", rng, 250 * k) + fam_odd("section") + fam_reused(4) + fam_arms(11 if quick else 1)
    if pid == "P08":
        return fam_core(rng, 150 * k) + fam_wide(("arms", "maps")) + fam_probes(3) + fam_arms(13 if quick else 3)
    if pid == "P09":
        return fam_messages()[::2] + [c for c in fam_core(rng, 150 * k) if not c["full"]] + fam_long((40, 150)) + [c for c in fam_probes(3) if not c["full"]]
    if pid == "P10":
        return fam_messages() + fam_marks()[::4 if quick else 1] + [c for c in fam_probes(5) if not c["full"]]
    if pid == "P11":
        return fam_rules() + fam_wide(("rules",)) + fam_reused(2 if quick else 1)
    if pid == "P12":
        return fam_chars()
    if pid == "P13":
        return fam_ints()
    if pid == "P14":
        return fam_floats(rng)
    if pid == "P15":
        return fam_strings()
    if pid == "P16":
        return fam_colls()
    if pid == "P19":
        return fam_aoc()
    if pid == "P21":
        cs = fam_core(rng, 60 * k) + fam_repeat()[::8] + fam_regions("line", rng, 30 * k) + fam_regions("section", rng, 30 * k) \
            + fam_rules() + fam_strings()[::3] + fam_colls()[::4] + fam_probes(7) + fam_says(9) + fam_arms(29 if quick else 7)
        return driven(rng, cs, 2)
    if pid == "P22":
        return fam_says(2 if quick else 1)
    if pid == "P20":
        cs = fam_core(rng, 60 * k) + fam_repeat()[::6] + fam_regions("line", rng, 30 * k) + fam_regions("section", rng, 30 * k) \
            + fam_rules() + fam_strings()[::5] + fam_probes(5) + fam_says(9)
        return [dict(c, trace=True) for c in cs if c["steps"] <= 200 and len(c["g"]) <= 25]
    return []


def corpus(pid, rng, n, quick=True, families_too=True):
    fam = families(pid, rng, quick) if families_too else []
    out = []
    profs = PROFILES[pid]
    mode = "aoc" if pid == "P19" else "parse"
    for p in profs:
        out += random_cases(rng, n // len(profs), p, mode=mode, keep=KEEP.get(pid), trace=(pid == "P20"),
                            cap=200 if pid == "P20" else CAP, maxnodes=25 if pid == "P20" else 40)
    return fam, driven(rng, out) if pid == "P21" else out
