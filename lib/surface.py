"""P18: parser! programs, generated from the documented syntax, compiled
against the library, run, and judged by TLC against spec/Surface.tla."""
import json
import os
import random
import re
import shutil
import subprocess
import time

import tools
from tools import ToolError, log
from model import *
from gen import Gen
import corpora

# ------------------------------------------------------------------- syntax

def lterm(p, q="", label=""):
    return {"label": label, "q": q, "p": p}


def expr(terms, conv=0, use=()):
    return {"terms": list(terms), "conv": conv, "use": list(use)}


def prim(p, n="", a=(), args=()):
    return {"p": p, "n": n, "a": list(a), "args": list(args)}


def slit(s):
    return prim("lit", a=[ord(c) for c in s])


def schr(c):
    return prim("chr", a=[ord(c)])


def name(n):
    return prim("name", n)


def group(e):
    return prim("group", args=[e])


def alts(*es):
    return prim("alt", args=es)


def call(n, *es):
    return prim("call", n, args=es)


def num(i):
    return prim("num", a=[i])


def one(p, q="", label=""):
    return expr([lterm(p, q, label)])


def define(n, e, rules=()):
    return {"n": n, "kind": "parser", "a": [], "rules": list(rules), "e": e}


def const(n, kind, s):
    return {"n": n, "kind": kind, "a": [s] if kind == "num" else [ord(c) for c in s], "rules": [], "e": one(slit("x"))}


def syn_of(x):
    """As spec/Surface.tla wants it: quantifiers as sequences."""
    if isinstance(x, dict):
        return {k: list(v) if k == "q" else syn_of(v) for k, v in x.items() if k != "amp"}
    return [syn_of(v) for v in x] if isinstance(x, (list, tuple)) else x


# ------------------------------------- trees (only to choose texts; no verdict)

def desugar(defs):
    env = {}
    for i, d in enumerate(defs):
        env[d["n"]] = def_tree(env, d, i + 1)
    return env[defs[-1]["n"]]()


def def_tree(env, d, i):
    if d["kind"] == "str":
        return lambda: T("lit", a=d["a"])
    if d["kind"] == "chr":
        return lambda: T("chr", a=d["a"])
    if d["kind"] == "num":
        return lambda: T("num", a=d["a"])
    if not d["rules"]:
        return lambda: grp(expr_tree(env, d["e"]))
    def build():
        inner = dict(env)
        for j, r in enumerate(d["rules"]):
            inner[r["n"]] = (lambda j: (lambda: ref(sid, j + 1)))(j)
        sid = def_tree.count = def_tree.count + 1
        return grp(ruleset(sid, expr_tree(inner, d["e"]), *[expr_tree(inner, r["e"]) for r in d["rules"]]))
    return build


def_tree.count = 0


def expr_tree(env, e):
    ts = []
    for t in e["terms"]:
        x = prim_tree(env, t["p"])
        for q in t["q"]:
            x = {"*": star, "+": plus, "?": opt}[q](x)
        ts.append(x)
    if not e["conv"]:
        return seq(*ts)
    labels = [t["label"] for t in e["terms"]]
    return T("mapl", [pair(*ts)], [e["conv"], len(ts)] + [labels.index(u) + 1 for u in e["use"]])


def prim_tree(env, p):
    k, n = p["p"], p["n"]
    if k == "lit":
        return T("lit", a=p["a"])
    if k == "chr":
        return T("chr", a=p["a"])
    if k == "name":
        if n in env:
            return env[n]()
        if n in ("alpha", "alnum", "upper", "lower", "digit", "digit_bin", "digit_hex"):
            return cls(n)
        if n == "any_char":
            return cls("any")
        if n == "bool":
            return T("bool")
        if n in ("f32", "f64"):
            return T("float", s=n)
        return int_(n)
    if k == "group":
        return grp(expr_tree(env, p["args"][0]))
    if k == "num":
        return T("num", a=p["a"])
    if k == "alt":
        arms = [expr_tree(env, a) for a in p["args"]]
        return grp(arms[0]) if len(arms) == 1 else alt(*arms)
    a = [expr_tree(env, x) for x in p["args"]]
    if n == "tagged":
        return map_(a[1], a[0].a[0])
    if n == "five":
        return map_(seq(pair(a[1], a[3]), a[4]), 10 * a[0].a[0] + a[2].a[0])
    if n in ("string", "line", "section"):
        return T(n, a)
    if n == "lines":
        return lines(a[0])
    if n == "sections":
        return sections(a[0])
    if n == "repeat_sep":
        return repsep(*a)
    if n == "char_of":
        return T("charof", a=a[0].a)
    if n == "boxed":
        return grp(a[0])
    if n == "nothing":
        return T("empty")
    if n == "three":
        return pair(*a)
    return coll(n, a[0])


# ---------------------------------------------------------------- Rust text

def rust_str(a):
    out = ""
    for c in a:
        ch = chr(c)
        out += {"\n": "\\n", "\t": "\\t", "\\": "\\\\", "\"": "\\\"", "\r": "\\r"}.get(
            ch, ch if 32 <= c < 127 else "\\u{%x}" % c)
    return out


class Writer:
    """Writes syntax as Rust tokens, with varying layout."""

    def __init__(self, rng):
        self.r = rng

    def sp(self):
        return self.r.choice([" ", " ", " ", "\n        ", "  ", " /* c */ "]) if self.r.random() < .3 else " "

    def maybe(self):
        return self.sp() if self.r.random() < .25 else ""

    def expr(self, e):
        out = self.sp().join(self.lterm(t) for t in e["terms"])
        if e["conv"]:
            out += " => " + self.conv(e)
        return out

    def conv(self, e):
        vals = ", ".join(u + ".to_val()" for u in e["use"])
        base = f"m({e['conv']}, vec![{vals}])"
        n = len(e["use"])
        p = self.r.random()
        if p < .5:
            return base
        if p < .6:
            return "{ let z = vec![" + vals + "]; m(" + str(e["conv"]) + ", z) }"
        if p < .7 and n:
            us = ", ".join(e["use"])
            return "match (" + us + ",) { (" + us + ",) => " + base + ", }"
        if p < .8:
            return "if true { " + base + " } else { unreachable!() }"
        if p < .9:
            return "(|q: Val| q)(" + base + ")"
        return base + ".to_val()"

    def lterm(self, t):
        out = ""
        if t["label"]:
            out = t["label"] + self.maybe() + ":" + self.maybe()
        out += self.prim(t["p"])
        for q in t["q"]:
            out += (self.maybe() if self.r.random() < .3 else "") + q
        return out

    def prim(self, p):
        k = p["p"]
        if k == "lit":
            s = "".join(map(chr, p["a"]))
            if self.r.random() < .15 and "\"" not in s and "\r" not in s:
                return 'r#"' + s + '"#'
            return '"' + rust_str(p["a"]) + '"'
        if k == "chr":
            c = p["a"][0]
            return "'" + ("\\'" if c == 39 else "\"" if c == 34 else rust_str(p["a"])) + "'"
        if k == "num":
            return str(p["a"][0])
        if k == "name":
            return p["n"]
        if k == "group":
            return "(" + self.maybe() + self.expr(p["args"][0]) + self.maybe() + ")"
        args = ("," + self.sp()).join(self.expr(a) for a in p["args"])
        if p["args"] and self.r.random() < .35:
            args += self.maybe() + ","
        if k == "alt":
            return "{" + self.sp() + args + self.sp() + "}"
        return p["n"] + ("" if self.r.random() < .9 else " ") + "(" + self.maybe() + args + self.maybe() + ")"

    def define(self, d, last, types):
        """A let statement. types: output types of rules (by name)."""
        if d["kind"] == "str":
            return f"let {d['n']} = \"{rust_str(d['a'])}\";"
        if d["kind"] == "num":
            return f"let {d['n']} = {d['a'][0]}i64;"
        if d["kind"] == "chr":
            return f"const {d['n']}: char = {self.prim(prim('chr', a=d['a']))};"
        inner = ""
        for r in d["rules"]:
            inner += f"rule {r['n']}{self.maybe()}: {types[r['n']]} = {self.expr(r['e'])};\n        "
        inner += self.expr(d["e"])
        o, c = self.r.choice(["()", "()", "{}", "[]"])
        end = "" if o == "{" and False else ";"
        amp = "&" if d.get("amp") else ""
        return f"let {d['n']} = {amp}parser!{o}{inner}{c}{end}"


# ---------------------------------------------------------------- generator

LABELS = ["x", "y", "z", "n", "value", "item", "r#type", "_k", "Ab", "string_", "lines"]
CHARS = {"alpha": "char", "alnum": "char", "upper": "char", "lower": "char", "any_char": "char",
         "digit": "usize", "digit_bin": "usize", "digit_hex": "usize"}
INTS = ["u8", "i8", "u32", "i64", "usize", "u64", "i16", "u128", "big_int", "big_uint", "isize", "f32", "f64"]


COLLS = ("hash_set", "btree_set", "vec_deque", "hash_map", "btree_map")


def user_type(raw):
    return "()" if not raw else raw[0] if len(raw) == 1 else "(" + ", ".join(raw) + ")"


# *? and +? mean something else in regular expressions, and are refused
QUANTS2 = ["**", "*+", "+*", "++", "?*", "?+", "??"]


def quantified(raw, q):
    for c in q:
        raw = [("Option<" if c == "?" else "Vec<") + user_type(raw) + ">"]
    return raw


def plain(t):
    """Can values of this type be put in a hash or tree set?"""
    return "Set" not in t and "Map" not in t and "f32" not in t and "f64" not in t and "Deque" not in t


class ProgGen:
    def __init__(self, rng):
        self.r = rng
        self.tag = 0
        self.alpha = rng.choice(["ab", "ab1", "ab\n", "aé", "a,b"])
        self.env = {}       # name -> (raw types, kind, uses left)

    def newtag(self):
        self.tag += 1
        return self.tag

    def text(self):
        return "".join(self.r.choice(self.alpha) for _ in range(self.r.choice([1, 1, 1, 2])))

    # each returns (syntax, raw types)
    def expr(self, d, mapped=None):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4] if d > 0 else [1, 1, 2])
        if mapped is None:
            mapped = r.random() < .3
        terms, raws = [], []
        for _ in range(n):
            p, raw = self.prim(d - 1)
            if terms and terms[-1]["p"]["p"] == "name" and not terms[-1]["q"] and p["p"] == "group":
                p2, raw2 = slit(self.text()), []       # ident ( is a call
                terms.append(lterm(p2))
                raws.append(raw2)
            q = r.choice(["*", "+", "?"]) if r.random() < .3 else ""
            if q and r.random() < .12:
                q = r.choice(QUANTS2)
            raw = quantified(raw, q)
            terms.append(lterm(p, q))
            raws.append(raw)
        if mapped:
            ix = sorted(r.sample(range(len(terms)), r.randint(0, min(4, len(terms)))))
            labels = r.sample(LABELS, len(ix))
            for i, l in zip(ix, labels):
                terms[i]["label"] = l
            use = r.sample(labels, r.randint(0, len(labels))) if r.random() < .3 else labels
            if r.random() < .3:
                r.shuffle(use)
            return expr(terms, self.newtag(), use), ["Val"]
        # labels without a conversion are allowed and mean nothing
        if r.random() < .08:
            terms[r.randrange(len(terms))]["label"] = r.choice(LABELS)
        raw = [x for y in raws for x in y]
        if len(raw) > 8:
            return self.expr(d, True)
        return expr(terms), raw

    def prim(self, d):
        r = self.r
        kinds = ["lit", "chr", "name", "name"]
        if d > 0:
            kinds += ["group", "group", "alt", "alt", "call", "call", "call"]
        k = r.choice(kinds)
        if k == "lit":
            return slit(self.text() if r.random() < .9 else r.choice(["\"", "\\", "é", "\n", "\t{"])), []
        if k == "chr":
            return schr(r.choice(self.alpha) if r.random() < .9 else r.choice("'\"\\\n😂,")), []
        if k == "name":
            mine = [n for n, x in self.env.items() if x[2] > 0]
            if mine and r.random() < .5:
                n = r.choice(mine)
                raw, kind, left = self.env[n]
                self.env[n] = (raw, kind, left - 1)
                if kind == "rule":      # guarded, so that recursion consumes text
                    return group(expr([lterm(schr(r.choice(self.alpha))), lterm(name(n))])), [user_type(raw)]
                return name(n), raw
            n = r.choice(list(CHARS) + INTS + ["bool"] + ["alpha", "any_char"] * 3)
            return name(n), [CHARS.get(n) or {"big_int": "BigInt", "big_uint": "BigUint"}.get(n, n)]
        if k == "group":
            e, raw = self.expr(d)
            return group(e), [user_type(raw)]
        if k == "alt":
            m = r.choice([1, 2, 2, 2, 3, 3, 4, 5])
            arms = [self.expr(d - 1) for _ in range(m)]
            if len({user_type(raw) for _, raw in arms}) > 1:
                arms = [(self.remap(e), ["Val"]) if raw != ["Val"] else (e, raw) for e, raw in arms]
            return alts(*[e for e, _ in arms]), [user_type(arms[0][1])]
        f = r.choice(["string", "line", "lines", "section", "sections", "repeat_sep", "coll", "char_of", "tagged", "boxed",
                      "nothing", "three", "string", "repeat_sep", "lines"])
        if f == "nothing":
            return call("nothing"), []
        if f == "char_of":
            return call("char_of", one(slit("".join(r.choice(self.alpha + "xy") for _ in range(3))))), ["usize"]
        if f == "tagged":
            e, raw = self.expr(d)
            if not self.copyable(e):
                return group(e), [user_type(raw)]
            return call("tagged", one(num(self.newtag())), e), ["Val"]
        if f == "repeat_sep":
            e, raw = self.expr(d)
            s, _ = self.expr(0)
            return call("repeat_sep", e, s), ["Vec<" + user_type(raw) + ">"]
        if f == "three":
            es = [self.expr(d - 1) for _ in range(3)]
            if not all(self.copyable(e) for e, _ in es):
                return group(es[0][0]), [user_type(es[0][1])]
            t = [user_type(x) for _, x in es]
            return call("three", *[e for e, _ in es]), [t[0], f"({t[1]}, {t[2]})"]
        if f == "coll":
            kind = r.choice(["hash_set", "btree_set", "vec_deque", "hash_map", "btree_map"])
            if kind.endswith("map"):
                e = one(group(expr([lterm(name("alpha")), lterm(name("any_char"))])), r.choice("*+"))
                return call(kind, e), ["HashMap<char, char>" if kind == "hash_map" else "BTreeMap<char, char>"]
            for _ in range(8):
                p, raw = self.prim(d - 1)
                if plain(user_type(raw)):
                    break
            else:
                p, raw = name("alpha"), ["char"]
            t = {"hash_set": "HashSet", "btree_set": "BTreeSet", "vec_deque": "VecDeque"}[kind]
            return call(kind, one(p, r.choice("*+"))), [f"{t}<{user_type(raw)}>"]
        e, raw = self.expr(d)
        u = user_type(raw)
        if f == "boxed" and not self.copyable(e):
            f = "line"
        if f == "string":
            return call("string", e), ["String"]
        if f in ("lines", "sections"):
            return call(f, e), [f"Vec<{u}>"]
        return call(f, e), [u]

    def copyable(self, e):
        """Can it be an argument of the functions that want Copy?"""
        def prim_ok(p):
            if p["p"] == "name" and self.env.get(p["n"], ("", "", 99))[2] < 50 and self.env[p["n"]][1] == "let":
                return False
            return p["n"] not in COLLS and all(self.copyable(a) for a in p["args"])
        return all(prim_ok(t["p"]) for t in e["terms"])

    def remap(self, e):
        if e["conv"]:
            return e
        return expr(e["terms"], self.newtag(), [t["label"] for t in e["terms"] if t["label"]])

    def program(self):
        r = self.r
        defs = []
        for i in range(r.choice([0, 0, 1, 1, 2, 3])):
            n = f"p{i + 1}"
            k = r.choice(["str", "chr", "parser", "parser", "parser"])
            if k == "str":
                defs.append(const(n, "str", self.text()))
                self.env[n] = ([], "str", 99)
            elif k == "chr":
                n = n.upper()
                defs.append(const(n, "chr", r.choice(self.alpha)))
                self.env[n] = ([], "chr", 99)
            else:
                e, raw = self.expr(r.choice([1, 2]))
                d = define(n, e)
                defs.append(d)
                # parsers with hash_set() and its like are not Copy
                alone = any(x["op"] == "coll" for x in flatten(desugar(defs)))
                self.env[n] = ([user_type(raw)], "let", 1 if alone else 99)
        rules, types = [], {}
        main = r.random() < .35
        if main:
            nr = r.choice([1, 2, 3])
            names = r.sample(["node", "leaf", "list", "rule_a", "value", "e"], nr)
            # types first: every rule yields Val, except perhaps a plain last one
            for n in names:
                self.env[n] = (["Val"], "rule", 2)
                types[n] = "Val"
            for n in names:
                e1, _ = self.expr(r.choice([1, 2]), True)
                base = expr([lterm(slit(self.text()))], self.newtag())
                arms = [e1, base] if r.random() < .5 else [base, e1]
                rules.append({"n": n, "e": one(alts(*arms))})
            for n in names:
                self.env[n] = (["Val"], "rule", 2)
        e, raw = self.expr(r.choice([2, 3, 3]))
        if main and r.random() < .5:
            e = one(name(r.choice(list(types))), r.choice(["", "", "*"]))
        for n in types:
            self.env.pop(n, None)
        d = define("p", e, rules)
        if not rules:
            for x in defs:
                if x["kind"] == "parser" and r.random() < .3:
                    x["amp"] = True
        defs.append(d)
        return defs, types, self.alpha


# ------------------------------------------------------- systematic programs

def systematic():
    """Every syntactic form alone and next to others."""
    out = []
    a, d, x = name("alpha"), name("digit"), slit("x")
    prims = [slit("ab"), schr("q"), name("alpha"), name("u8"), group(expr([lterm(a), lterm(d)])),
             alts(one(slit("m"), label=""), one(slit("n"))), alts(one(a)), alts(expr([lterm(a), lterm(d)])),
             call("string", one(a, "+")), call("repeat_sep", one(a), one(schr(","))), call("nothing"), call("char_of", one(slit("pqr"))),
             call("three", one(a), one(x), one(d)), call("tagged", one(num(77)), one(a)), call("boxed", expr([lterm(a), lterm(a)]))]
    tag = [100]
    def nt():
        tag[0] += 1
        return tag[0]
    for p in prims:
        for q in ("", "*", "+", "?"):
            out.append([define("p", expr([lterm(slit("<")), lterm(p, q), lterm(slit(">"))]))])
            out.append([define("p", expr([lterm(slit("<")), lterm(p, q, "v"), lterm(a, "?")], nt(), ["v"]))])
    # labels: every set of labelled terms among up to five
    for n in range(1, 6):
        for mask in range(1 << n):
            if n == 5 and mask % 3:
                continue
            kinds = [a, d, slit("-"), group(expr([lterm(a), lterm(d)])), call("string", one(d, "*"))]
            terms = [lterm(kinds[i], "", "abcde"[i] * 2 if mask >> i & 1 else "") for i in range(n)]
            use = [t["label"] for t in terms if t["label"]]
            if mask % 2:
                use.reverse()
            out.append([define("p", expr(terms, nt(), use))])
    # alternations of 1..7 arms, of all result shapes
    for n in range(1, 8):
        texts = ["a", "ab", "b", "ba", "c", "aa", "abc"][:n]
        out.append([define("p", one(alts(*[expr([lterm(slit(t))], nt()) for t in texts])))])
        out.append([define("p", one(alts(*[one(slit(t)) for t in texts]), "+"))])
        out.append([define("p", expr([lterm(alts(*[expr([lterm(slit(t)), lterm(a), lterm(d)]) for t in texts])), lterm(a, "?")]))])
        out.append([define("p", expr([lterm(alts(*[expr([lterm(slit(t)), lterm(a, "", "w")], nt(), ["w"]) for t in texts]), "*", "k"),
                                      lterm(slit("!"))], nt(), ["k"]))])
    # long forms
    for n in (6, 8, 9, 12):
        terms = [lterm([a, d, slit("-")][i % 3], "*" if i == 4 else "?" if i == 7 else "", f"v{i}" if i % 5 != 2 else "") for i in range(n)]
        out.append([define("p", expr(terms, nt(), [t["label"] for t in terms if t["label"]]))])
        out.append([define("p", expr([lterm(a if i % 2 else slit("-"), "?" if i % 4 == 3 else "") for i in range(n)]))])
    out.append([define("p", one(alts(*[expr([lterm(slit("ab"[i % 2] * (i // 2 + 1)))], nt()) for i in range(12)]), "+"))])
    out.append([define("p", one(name("r1"), "+"),
                       [{"n": f"r{i}", "e": one(alts(expr([lterm(slit("abcdefghij"[i - 1]))], nt()),
                                                     expr([lterm(slit(".")), lterm(name(f"r{i % 10 + 1}"), "", "k")], nt(), ["k"])))}
                        for i in range(1, 11)])])
    # scoping of labels
    inner = group(expr([lterm(a, "", "x"), lterm(d, "", "y")], nt(), ["y", "x"]))
    out.append([define("p", expr([lterm(d, "", "y"), lterm(inner, "", "x"), lterm(slit(";"))], nt(), ["x", "y"]))])
    out.append([define("p", expr([lterm(inner, "*", "y"), lterm(inner, "", "x")], nt(), ["x", "y"]))])
    out.append([define("p", expr([lterm(alts(expr([lterm(a, "", "x")], nt(), ["x"]), expr([lterm(d, "", "x")], nt(), ["x"])), "+", "x")], nt(), ["x"]))])
    # names: constants, parsers, used more than once, in calls
    out.append([const("sep", "str", ", "), define("pt", expr([lterm(d), lterm(slit(":")), lterm(d)])),
                define("p", expr([lterm(call("repeat_sep", one(name("pt")), one(name("sep")))), lterm(name("sep")), lterm(name("pt"), "?")]))])
    out.append([const("DASH", "chr", "-"), define("p", expr([lterm(name("DASH"), "*"), lterm(a), lterm(name("DASH"), "", "k")]))])
    out.append([const("DASH", "chr", "-"), define("p", expr([lterm(name("DASH"), "*", "j"), lterm(a), lterm(name("DASH"), "", "k")], nt(), ["k", "j"]))])
    # rules
    node = {"n": "node", "e": one(alts(expr([lterm(a, "", "x")], nt(), ["x"]), expr([lterm(name("list"), "", "x")], nt(), ["x"])))}
    lst = {"n": "list", "e": expr([lterm(schr("(")), lterm(name("node"), "*", "v"), lterm(schr(")"))], nt(), ["v"])}
    for e in (one(name("node")), one(name("list"), "+"), expr([lterm(name("node")), lterm(name("node"), "?")]),
              one(call("lines", one(name("node"), "+"))), expr([lterm(call("string", one(name("node")))), lterm(name("list"))]),
              one(call("repeat_sep", one(name("list")), one(slit(","))))):
        out.append([define("p", e, [node, lst])])
        out.append([define("q", e, [lst, node]), define("p", expr([lterm(name("q")), lterm(slit(".")), lterm(name("alpha"), "?")]))])
    typed = [{"n": "two", "e": expr([lterm(a), lterm(d)])}, {"n": "unit", "e": one(slit("u"))}, {"n": "many", "e": one(name("two"), "*")}]
    out.append([define("p", expr([lterm(name("unit")), lterm(name("many")), lterm(slit("/")), lterm(name("two"))]), typed)])
    return out


# ----------------------------------------- forms next to each other, to cover

PRE = [const("dash", "str", "a"), const("BEE", "chr", "b"), const("five_", "num", 5),
       define("word", one(name("alpha"))), define("unit", one(slit("b"))),
       define("made", expr([lterm(name("digit"), "", "d")], 71, ["d"]))]
PRE_RAW = {"word": ["char"], "unit": ["()"], "made": ["Val"], "dash": [], "BEE": []}


class Flat:
    """Sequences, alternations and argument lists of simple forms, so that
    every form comes to stand before, after and between every other."""

    def __init__(self, rng):
        self.r = rng
        self.tag = 200
        self.seen = set()

    def newtag(self):
        self.tag += 1
        return self.tag

    # (syntax, raw types), by kind of form
    def form(self, kind):
        r = self.r
        a, d, any_ = name("alpha"), name("digit"), name("any_char")
        if kind == "lit":
            return slit(r.choice(["a", "b", "ab", "1"])), []
        if kind == "chr":
            return schr(r.choice("ab1")), []
        if kind == "const":
            return name(r.choice(["dash", "BEE"])), []
        if kind == "name":
            n, t = r.choice([("alpha", "char"), ("digit", "usize"), ("any_char", "char"), ("u8", "u8"), ("lower", "char")])
            return name(n), [t]
        if kind == "let":
            n = r.choice(["word", "word", "unit", "made"])
            return name(n), PRE_RAW[n]
        if kind == "call":
            return r.choice([
                lambda: (call("string", one(r.choice([a, d]), r.choice(["", "+"]))), ["String"]),
                lambda: (call("string", one(group(expr([lterm(a), lterm(d, "?")])))), ["String"]),
                lambda: (call("repeat_sep", one(a), one(r.choice([slit("1"), name("dash"), schr("b")]))), ["Vec<char>"]),
                lambda: (call("char_of", one(slit("ab1"))), ["usize"]),
                lambda: (call("char_of", one(name("dash"))), ["usize"]),
                lambda: (call("boxed", self.small()), None),
                lambda: (call("tagged", one(num(r.randint(3, 9))), self.small()), ["Val"]),
                lambda: (call("tagged", one(name("five_")), self.small()), ["Val"]),
                lambda: (call("five", one(num(3)), one(name("word")), one(name("five_")), one(any_), one(slit("a"))), ["Val"]),
                lambda: (call("five", one(name("five_")), self.small(), one(num(8)), self.small(), one(name("BEE"))), ["Val"]),
                lambda: (call("nothing"), []),
            ])()
        if kind == "group":
            return group(r.choice([
                lambda: one(slit("a")), lambda: one(name("dash")), lambda: one(a), lambda: expr([lterm(a), lterm(d)]),
                lambda: one(group(one(slit("b")))), lambda: one(group(one(any_))), lambda: one(group(expr([lterm(d), lterm(a)]))),
                lambda: one(alts(one(a), one(any_))), lambda: expr([lterm(a, "", "x")], self.newtag(), ["x"]),
                lambda: one(a, "*"), lambda: expr([lterm(slit("a")), lterm(any_)]), lambda: expr([lterm(slit("b"))], self.newtag()),
                lambda: one(call("string", one(a))), lambda: expr([lterm(schr("a")), lterm(slit("b"))]), lambda: self.small(),
            ])()), None
        return alts(*r.choice([
            lambda: [one(a)], lambda: [one(slit("a"))], lambda: [expr([lterm(a), lterm(d)])], lambda: [one(slit("ab")), one(schr("a"))],
            lambda: [one(any_), one(a)], lambda: [one(name("dash")), one(slit("b")), one(slit("ab"))],
            lambda: [one(alts(one(a), one(any_))), one(a)], lambda: [one(group(one(d))), one(d)],
            lambda: [expr([lterm(a, "", "x")], self.newtag(), ["x"]), expr([lterm(any_)], self.newtag())],
            lambda: [expr([lterm(slit("a")), lterm(any_)]), one(a)], lambda: [one(a, "?"), one(any_, "?")],
        ])()), None

    def small(self):
        r = self.r
        return r.choice([lambda: one(name("alpha")), lambda: one(name("word")), lambda: one(slit("a")), lambda: one(group(one(name("digit")))),
                         lambda: one(alts(one(slit("a")), one(slit("ab")))), lambda: expr([lterm(name("alpha")), lterm(name("digit"))]),
                         lambda: expr([lterm(name("any_char"), "", "q")], self.newtag(), ["q"]), lambda: one(name("alpha"), "?"),
                         lambda: expr([lterm(slit("a")), lterm(group(one(slit("b")))), lterm(name("digit"))]),
                         lambda: one(call("string", one(name("alpha")))), lambda: expr([lterm(slit("b"))], self.newtag())])()

    KINDS = ["lit", "chr", "const", "name", "let", "call", "group", "alt"]

    def feature(self, t, kind):
        return (kind, bool(t["label"]), t["q"] if len(t["q"]) < 2 else "2")

    def seq(self, n, mapped, kinds=None):
        """n terms, preferring neighbours not seen before."""
        r = self.r
        terms, feats = [], []
        names = r.sample(LABELS, min(n, 8)) + [f"l{i}" for i in range(n)]
        while len(terms) < n:
            best = None
            for _ in range(1 if kinds else 24):
                kind = kinds[len(terms) % len(kinds)] if kinds else r.choice(self.KINDS)
                q = r.choice(["", "", "*", "+", "?", "?", r.choice(QUANTS2) if r.random() < .3 else ""])
                label = names[len(terms)] if r.random() < (.5 if mapped else .06) else ""
                f = (kind, bool(label), q if len(q) < 2 else "2")
                if kind == "group" and feats and feats[-1][0] in ("const", "name", "let") and not feats[-1][2]:
                    continue        # would be a call
                end = len(terms) == n - 1
                new = [x for x in [(tuple(feats[-1:]), f, mapped), (tuple(feats[-2:]), f), (f, "end", mapped) if end else 0,
                                   ("start", f, mapped) if not terms else 0] if x and x not in self.seen]
                worth = sum(1 if len(x) == 2 else 3 for x in new)
                if best is None or worth > best[0]:
                    best = (worth, new, kind, q, label, f)
            if best is None:
                continue
            _, new, kind, q, label, f = best
            self.seen.update(new)
            terms.append(lterm(self.form(kind)[0], q, label))
            feats.append(f)
        if not mapped:
            return expr(terms)
        use = [t["label"] for t in terms if t["label"]]
        if r.random() < .5:
            r.shuffle(use)
        return expr(terms, self.newtag(), use)

    def program(self, e):
        """The expression in one of the places an expression can be."""
        r = self.r
        rest = lterm(name("any_char"), "*")
        k = r.choice(["top", "top", "group", "first arm", "last arm", "argument", "two arguments", "rule", "let"])
        rules = []
        if k == "group":
            e = expr([lterm(slit("a"), "?"), lterm(group(e)), rest])
        elif k == "first arm":
            e = expr([lterm(alts(self.remap(e), expr([lterm(slit("a"))], self.newtag()))), rest])
        elif k == "last arm":
            e = expr([lterm(alts(expr([lterm(slit("a"))], self.newtag()), expr([lterm(slit("b"))], self.newtag()), self.remap(e))), rest])
        elif k == "argument":
            e = expr([lterm(call("tagged", one(num(4)), e)), rest])
        elif k == "two arguments":
            e = expr([lterm(call("repeat_sep", self.remap(e), one(slit(","))))])
        elif k == "rule":
            rules = [{"n": "aa", "e": self.remap(e)}, {"n": "bb", "e": expr([lterm(schr("<")), lterm(name("aa"), "", "x")], self.newtag(), ["x"])}]
            e = r.choice([one(name("aa")), one(name("bb")), expr([lterm(name("aa")), lterm(name("bb"), "?")]), one(alts(one(name("bb")), one(name("aa"))))])
        d = define("p", e, rules)
        defs = [d]
        if k == "let":
            d["n"] = "q"
            defs = [d, define("p", expr([lterm(name("q")), rest]))]
        used = json.dumps(defs)
        return [x for x in PRE if json.dumps(x["n"]) in used] + defs

    def remap(self, e):
        return e if e["conv"] else expr(e["terms"], self.newtag(), [t["label"] for t in e["terms"] if t["label"]])

    # arms of one type, by kind
    ARMS = ["lit", "chr", "name", "let", "call", "group", "alt", "seq"]

    def arm(self, ty, kind):
        r = self.r
        text = r.choice(["a", "ab", "b", "abb", "1", "a1"])
        any_, w = name("any_char"), name("word")
        if ty == "()":
            return {"lit": lambda: one(slit(text)), "chr": lambda: one(schr(text[0])), "name": lambda: one(name(r.choice(["dash", "BEE"]))),
                    "call": lambda: one(call("boxed", one(slit(text)))) if r.random() < .7 else one(call("nothing")),
                    "group": lambda: one(group(one(slit(text)))), "alt": lambda: one(alts(one(slit(text)), one(slit("b")))),
                    "seq": lambda: expr([lterm(slit(text)), lterm(r.choice([schr("b"), name("dash"), slit("1")]))]),
                    "let": lambda: one(name("unit"))}[kind]()
        if ty == "char":
            return {"lit": lambda: expr([lterm(slit(text)), lterm(any_)]), "chr": lambda: expr([lterm(any_), lterm(schr(text[-1]))]),
                    "name": lambda: one(name(r.choice(["alpha", "any_char"]))), "call": lambda: one(call("boxed", expr([lterm(slit(text)), lterm(any_)]))),
                    "group": lambda: one(group(expr([lterm(slit(text)), lterm(w)]))), "alt": lambda: one(alts(expr([lterm(w), lterm(slit("b"))]), one(w))),
                    "seq": lambda: expr([lterm(slit(text)), lterm(group(one(any_))), lterm(slit("b"))]), "let": lambda: one(w)}[kind]()
        return {"lit": lambda: expr([lterm(slit(text))], self.newtag()), "chr": lambda: expr([lterm(schr(text[0]), "+", "k")], self.newtag(), ["k"]),
                "name": lambda: expr([lterm(name(r.choice(["alpha", "dash", "any_char"])), "", "k")], self.newtag(), ["k"]),
                "call": lambda: one(call("tagged", one(num(r.randint(1, 9))), one(slit(text)))),
                "group": lambda: one(group(expr([lterm(slit(text)), lterm(any_, "", "k")], self.newtag(), ["k"]))),
                "alt": lambda: one(alts(expr([lterm(slit(text))], self.newtag()), expr([lterm(any_)], self.newtag()))),
                "seq": lambda: expr([lterm(slit(text)), lterm(w, "", "k"), lterm(any_, "?", "z")], self.newtag(), ["z", "k"]),
                "let": lambda: one(name("made"))}[kind]()

    def arms(self, n, ty, last):
        kinds = [self.r.choice(self.ARMS) for _ in range(n - len(last))] + list(last)
        e = expr([lterm(alts(*[self.arm(ty, k) for k in kinds]), self.r.choice(["", "", "+"])), lterm(name("any_char"), "*")])
        used = json.dumps(e)
        return [x for x in PRE if json.dumps(x["n"]) in used] + [define("p", e)]

    def runs(self):
        """The same form several times over."""
        out = []
        for kind in self.KINDS:
            for labelled in (False, True):
                for n in range(2, 8):
                    if kind == "group" or n < 7:
                        terms = [lterm(self.form(kind)[0], "", f"l{i}" if labelled else "") for i in range(n)]
                        use = [t["label"] for t in terms if t["label"]]
                        self.r.shuffle(use)
                        out.append(self.program(expr(terms, self.newtag(), use) if labelled else expr(terms)))
        return out

    def all(self, seqs, arms):
        out = self.runs()
        for i in range(seqs):
            out.append(self.program(self.seq(self.r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7]), self.r.random() < .7)))
        pairs = [(ty, a, b) for ty in ("()", "char", "Val") for a in self.ARMS for b in self.ARMS]
        self.r.shuffle(pairs)
        for i in range(arms):
            ty, a, b = pairs[i % len(pairs)]
            out.append(self.arms(self.r.choice([2, 2, 3, 3, 4, 5]), ty, (a, b)))
        return [x for x in out if arity_ok(x)]


SYS_TYPES = {"node": "Val", "list": "Val", "two": "(char, usize)", "unit": "()", "many": "Vec<(char, usize)>",
             "aa": "Val", "bb": "Val", **{f"r{i}": "Val" for i in range(1, 11)}}


# ------------------------------------------------------------------ programs

HEAD = """#![allow(unused)]
use aoc_parse::{parser, prelude::*};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use vh::surface::{boxed, five, m, nothing, run, tagged, three, Job, Shown};
use vh::val::{BigInt, BigUint, ToVal, Val};
"""


class Program:
    def __init__(self, pid, defs, types, alpha, rng):
        self.id, self.defs, self.types = pid, defs, types
        w = Writer(rng)
        body = "\n    ".join(w.define(d, d is defs[-1], types) for d in defs)
        self.text = body
        self.rust = f"pub fn f(j: &Job) -> Shown {{\n    {body}\n    run(j, |s| p.parse(s).map(|x| x.to_val()))\n}}\n"
        self.alpha = alpha
        self.syn = syn_of({"defs": defs})

    def cases(self, rng, n):
        g = flatten(desugar(self.defs))
        G = Gen(rng, alphabet=self.alpha)
        out, seen = [], set()
        for s in G.inputs(g, n) + [[]]:
            if tuple(s) in seen:
                continue
            seen.add(tuple(s))
            c = self.case(s, g)
            if c:
                out.append(c)
        return out

    def case(self, s, g=None):
        g = g or flatten(desugar(self.defs))
        c = corpora.case(g, s, cap=1500)
        return c and {"prog": self.text, "pid": self.id, "syn": self.syn, "src": s, "mode": "parse", "g": g, "steps": c["steps"]}


def arity_ok(defs):
    """Tuples of more than eight values are not supported by the library."""
    def go(t):
        if arity(t) > 8:
            return False
        return all(go(k) for k in t.k)
    return go(desugar(defs))


def package(progs, name, bins=8):
    """Write the programs as a cargo package with `bins` binaries."""
    root = os.path.join(tools.BUILD, name)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "src", "bin"))
    shutil.copy(os.path.join(tools.VERIF, "harness", "Cargo.lock"), root)
    with open(os.path.join(root, "Cargo.toml"), "w") as f:
        f.write(f"""[package]
name = "surface"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
aoc-parse = {{ path = {json.dumps(tools.REPO)} }}
vh = {{ path = {json.dumps(os.path.join(tools.VERIF, "harness"))} }}
[profile.dev]
debug = 0
opt-level = 0
incremental = false
[profile.dev.package."*"]
opt-level = 1
""")
    groups = [progs[i::bins] for i in range(bins)]
    for b, ps in enumerate(groups):
        if not ps:
            continue
        os.makedirs(os.path.join(root, "src", f"b{b}"))
        mods = "".join(f'#[path = "../b{b}/p{p.id}.rs"]\nmod p{p.id};\n' for p in ps)
        arms = "".join(f"        {p.id} => p{p.id}::f(j),\n" for p in ps)
        with open(os.path.join(root, "src", "bin", f"b{b}.rs"), "w") as f:
            f.write("#![recursion_limit = \"1024\"]\n" + mods + "fn main() {\n    vh::surface::main(|id, j| match id {\n" + arms +
                    "        _ => panic!(\"harness: no such program\"),\n    })\n}\n")
        for p in ps:
            with open(os.path.join(root, "src", f"b{b}", f"p{p.id}.rs"), "w") as f:
                f.write(HEAD.replace("#![allow(unused)]", "#![allow(warnings)]") + p.rust)
    return root


def compile_package(root):
    """Ids of programs that do not compile."""
    tools.fresh_library(root)
    r = tools.cargo(["build", "--offline", "--bins", "--keep-going", "-j", "8"], root)
    if r.returncode == 0:
        return {}, r
    bad = {}
    for m in re.finditer(r"--> src/(?:bin/\.\./)?b\d+/p(\d+)\.rs", r.stdout):
        bad.setdefault(int(m.group(1)), r.stdout[max(0, m.start() - 300):m.end() + 300])
    if not bad:
        raise ToolError("the generated programs do not build:\n" + r.stdout[-3000:])
    return bad, r


def execute(run, progs, cases, root, bins=8):
    """Results in the order of cases."""
    where = {}
    for i, p in enumerate(progs):
        where[p.id] = i % bins
    res = [None] * len(cases)
    for b in range(bins):
        ix = [i for i, c in enumerate(cases) if where[c["pid"]] == b]
        if not ix:
            continue
        exe = os.path.join(tools.TARGET, "debug", f"b{b}")
        out = tools.run_lines([exe, "run"], [{k: cases[i][k] for k in ("pid", "src", "srcs") if k in cases[i]} for i in ix], run.work, f"b{b}")
        for i, r in zip(ix, out):
            res[i] = r
    return res


def batch(run, progs, per, name):
    root = package(progs, name)
    t0 = time.time()
    bad, r = compile_package(root)
    log(f"{len(progs)} programs compiled in {time.time() - t0:.1f} s")
    run.note("programs_compiled", len(progs) - len(bad))
    if bad:
        for p in progs:
            if p.id in bad:
                run.bad.append(({"compile"}, {"prog": p.text, "src": [], "syn": p.syn, "types": p.types},
                                {"kind": "does not compile", "msg": bad[p.id]}))
        return
    cases = [c for p in progs for c in p.cases(run.rng, per)]
    res = execute(run, progs, cases, root)
    keep = [i for i, x in enumerate(res) if x is not None]
    # TLC needs the syntax and the text only
    slim = [{k: cases[i][k] for k in ("prog", "syn", "src", "mode")} for i in keep]
    run.judge(slim, name, "Surface", [res[i] for i in keep])
    run.machine([{"g": cases[i]["g"], "src": cases[i]["src"]} for i in run.rng.sample(range(len(cases)), min(len(cases), 300))
                 if cases[i]["steps"] < 80], name)


def random_programs(rng, n, first):
    out = []
    while len(out) < n:
        g = ProgGen(rng)
        defs, types, alpha = g.program()
        if not arity_ok(defs) or len(flatten(desugar(defs))) > 60:
            continue
        out.append(Program(first + len(out), defs, types, alpha, rng))
    return out


def flat(rng, seqs, arms, first):
    return [Program(first + i, d, SYS_TYPES, "ab1", rng) for i, d in enumerate(Flat(rng).all(seqs, arms))]


def shapes(rng, n, first):
    """Programs without conversions, for what becomes of groups and tuples."""
    F = Flat(rng)
    out = []
    while len(out) < n:
        k = rng.choice(["seq", "seq", "group", "nest"])
        e = F.seq(rng.choice([1, 2, 2, 3, 4, 5]), False)
        if k == "group":
            e = expr([lterm(F.form("lit")[0]), lterm(group(e), rng.choice(["", "", "*", "?"])), lterm(name("any_char"), "?")])
        elif k == "nest":
            for _ in range(rng.randint(1, 3)):
                e = one(group(e) if rng.random() < .5 else alts(e))
            e = expr([*e["terms"], lterm(name("any_char"), "*")])
        d = F.program(e)
        if arity_ok(d):
            out.append(Program(first + len(out), d, SYS_TYPES, "ab1", rng))
    return out


def ruled_programs(rng, n, first):
    out = []
    while len(out) < n:
        g = ProgGen(rng)
        defs, types, alpha = g.program()
        if any(d["rules"] for d in defs) and arity_ok(defs) and len(flatten(desugar(defs))) <= 60:
            out.append(Program(first + len(out), defs, types, alpha, rng))
    return out


def some(run):
    """The part of this that other properties are decided with as well."""
    make = {"P03": shapes, "P11": ruled_programs}[run.pid]
    if run.quick:
        batch(run, make(run.rng, 150, 1), 16, "surface")
    else:
        for k in range(3):
            batch(run, make(run.rng, 300, 1), 40, "surface")


TOKENS = {"t": "'x'", "n": "alpha", "g": "(digit)", "c": "=> 0", "{": "{ }"}


def form_text(toks):
    return " ".join(f"l{i}:" if x == "l" else f"rule r{i}: char = alpha{';' if x == 'R' else ''}" if x in "RU"
                    else TOKENS.get(x, x) for i, x in enumerate(toks))


def check_forms(forms):
    """Compile each form in a function of its own (one line each); the forms
    that the compiler objects to: {form: message}.  Macros are expanded before
    anything else is looked at, so forms refused by the macro show up together;
    what is not refused then is compiled once more without those."""
    refused, todo = {}, list(forms)
    for attempt in range(4):
        root = os.path.join(tools.BUILD, "grammar")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(os.path.join(root, "src"))
        shutil.copy(os.path.join(tools.VERIF, "harness", "Cargo.lock"), root)
        with open(os.path.join(root, "Cargo.toml"), "w") as f:
            f.write(f"""[package]
name = "grammar"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
aoc-parse = {{ path = {json.dumps(tools.REPO)} }}
[profile.dev]
incremental = false
""")
        head = "#![allow(warnings)]\n#![recursion_limit = \"1024\"]\nuse aoc_parse::{parser, prelude::*};\n"
        with open(os.path.join(root, "src", "lib.rs"), "w") as f:
            f.write(head + "".join(f"fn f{i}() {{ let _ = parser!({form_text(x)}); }}\n" for i, x in enumerate(todo)))
        tools.fresh_library(root)
        r = tools.cargo(["check", "--offline", "--lib", "--message-format=json"], root)
        found, errors = {}, 0
        for line in r.stdout.split("\n"):
            m = json.loads(line) if line.startswith("{") else {}
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            errors += 1
            spans = list(m["message"]["spans"])
            while spans:
                sp = spans.pop()
                if sp.get("expansion"):
                    spans.append(sp["expansion"]["span"])
                if sp["file_name"] == "src/lib.rs" and sp["line_start"] > 3:
                    found.setdefault(todo[sp["line_start"] - 4], m["message"]["message"])
        if (r.returncode != 0) != bool(found):
            raise ToolError("the forms do not compile:\n" + r.stdout[-3000:])
        if not found:
            break
        refused.update(found)
        todo = [x for x in todo if x not in found]
    return refused


def forms(run):
    """Which token sequences are patterns: generated by TLC from Grammar.tla."""
    st = tools.tlc("Grammar.tla", "Grammar.cfg" if run.quick else "GrammarAll.cfg", run.work)
    if st["rc"] != 0:
        raise ToolError("Grammar.tla: " + tools.trim(st["out"]))
    run.count(st)
    want = {}
    for m in re.finditer(r'<<\s*"FORM",\s*<<([^>]*)>>,\s*"(good|bad)"\s*>>', st["out"]):
        want[tuple(re.findall(r'"([^"]+)"', m.group(1)))] = m.group(2)
    t0 = time.time()
    refused = check_forms(sorted(want))
    log(f"{len(want)} forms in {time.time() - t0:.1f} s, {len(refused)} refused")
    run.note("forms_that_are_patterns", sum(v == "good" for v in want.values()))
    run.note("forms_that_are_not", sum(v == "bad" for v in want.values()))
    for x, v in want.items():
        if (v == "bad") != (x in refused):
            run.bad.append(({"grammar"}, {"form": list(x), "src": [], "want": v},
                            {"kind": "refused" if x in refused else "accepted", "msg": f"parser!({form_text(x)}) {refused.get(x, '')}"}))


def decide(run):
    rng = run.rng
    run.harness()
    forms(run)
    sysm = systematic()
    progs = [Program(i, d, SYS_TYPES, "ab1x", rng) for i, d in enumerate(sysm)]
    if run.quick:
        progs += random_programs(rng, 120, 1000)
        progs += flat(rng, 2200, 192, 2000)
        batch(run, progs, 16, "surface")
    else:
        batch(run, progs + flat(rng, 3000, 384, 2000), 60, "surface")
        k = 0
        while time.time() < run.deadline - 200 and not run.relevant():
            k += 1
            batch(run, random_programs(rng, 300, 1000) + flat(rng, 400, 192, 2000), 40, "surface")


def replay(run, c):
    if "form" in c:
        x = tuple(c["form"])
        if (x in check_forms([x])) != (c["want"] == "bad"):
            run.bad.append(({"grammar"}, c, {"kind": "grammar", "msg": form_text(x)}))
        return
    run.harness()
    class P(Program):
        def __init__(self):
            self.id, self.text, self.syn, self.types = 1, c["prog"], c["syn"], c.get("types", {})
            self.rust = f"pub fn f(j: &Job) -> Shown {{\n    {self.text}\n    run(j, |s| p.parse(s).map(|x| x.to_val()))\n}}\n"
    p = P()
    root = package([p], "surface")
    bad, r = compile_package(root)
    if bad:
        run.bad.append(({"compile"}, c, {"kind": "does not compile", "msg": bad[1]}))
        return
    case = {"prog": p.text, "syn": p.syn, "src": c["src"], "mode": "parse", "pid": 1}
    res = execute(run, [p], [case], root)
    case.pop("pid")
    run.judge([case], "replay", "Surface", res)
