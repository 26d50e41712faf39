"""P17: histories of parser objects (spec/History.tla), replayed for real."""
import json
import os
import re
import time

import tools
from tools import ToolError, log
from model import *
from gen import Gen
import corpora
import surface


def cps(s):
    return [ord(c) for c in s]


def twin(t, by=1):
    """Another text of the same length."""
    out = []
    for c in t:
        for lo, n in ((48, 10), (97, 26), (65, 26)):
            if lo <= c < lo + n:
                c = lo + (c - lo + by) % n
                break
        out.append(c)
    return out


def pool_item(g, texts):
    return {"g": g, "texts": [cps(t) if isinstance(t, str) else t for t in texts]}


def fixed_pool():
    """Patterns with rules, numbers, regions, closures; texts that match (the
    first at least) and texts that do not."""
    a = cls("alpha")
    m = map_
    out = []
    # nested lists
    node = lambda s: alt(m(a, 1), m(pair(chr_("("), pair(star(ref(s, 1)), chr_(")"))), 2))
    out.append((ruleset(1, ref(1, 1), node(1)), ["(a(b))", "((", "a", "(a)b", "()"]))
    # two rules that need each other; entry uses both
    out.append((ruleset(2, pair(ref(2, 1), ref(2, 2)),
                        m(seq(chr_("<"), opt(ref(2, 2)), chr_(">")), 3),
                        alt(m(lit("x"), 4), ref(2, 1))), ["<x>x", "<<>><>", "<x", "<>", "<>y"]))
    # a rule set within a rule set's body
    inner = ruleset(4, ref(4, 1), m(pair(cls("digit"), opt(ref(4, 1))), 5))
    out.append((ruleset(3, ref(3, 1), m(pair(inner, opt(pair(chr_("-"), ref(3, 1)))), 6)), ["12-3-4", "1--2", "7", "12-", "-"]))
    # the same rules in another order, with other results
    out.append((ruleset(5, ref(5, 2), m(lit("b"), 7), m(pair(ref(5, 1), star(ref(5, 1))), 8)), ["bbb", "", "b", "ba", "bb"]))
    # numbers and words
    out.append((repsep(m(alt(grp(int_("i32")), grp(int_("u8", 16))), 9), chr_(",")), ["-1,2", "ff,0", "-2147483648", "1,", ",1"]))
    out.append((m(pair(T("bool"), T("float", s="f64")), 10), ["true1.5", "false-0.5e3", "true", "falsex", "true."]))
    # regions
    out.append((m(lines(plus(a)), 11), ["ab\nc\n", "ab\nc", "ab\n\nc\n", "a1\n", ""]))
    out.append((m(sections(lines(a)), 12), ["a\nb\n\nc\n", "a\nb", "a\n\n\nb", "\na\n", "a\n"]))
    # ambiguity
    out.append((m(pair(star(alt(lit("a"), lit("ab"))), star(lit("b"))), 13), ["aab", "abb", "ba", "aba", "ab"]))
    out.append((pair(string(plus(m(a, 14))), star(m(a, 15))), ["abc", "", "a1", "a", "ab"]))
    out.append((m(coll("hash_set", star(a)), 16), ["abca", "1", "", "aa", "ab1"]))
    out.append((grp(a), ["a", "ab", "", "1", "z"]))
    out.append((pair(grp(int_("u64")), star(pair(chr_(" "), int_("i8")))), ["31 -7", "42 99", "300 1", "4 200", "1"]))
    return [with_twins(pool_item(flatten(t), ts)) for t, ts in out]


def with_twins(item):
    """Texts of equal lengths, for caches that look at no more than that."""
    for t in item["texts"][:2]:
        if twin(t) not in item["texts"]:
            item["texts"].append(twin(t))
    return item


def twins():
    """Two parsers that go wrong when their rule sets are taken for one
    another, and one to build many of."""
    def one(s, o, c, k):
        return ruleset(s, ref(s, 1), alt(map_(lit(o), k), map_(seq(lit(o), ref(s, 2)), k + 1)), map_(lit(c), k + 2))
    return [pool_item(flatten(one(1, "(", "c", 1)), ["(c", "("]), pool_item(flatten(one(2, "[", "d", 4)), ["[d", "["])]


def telling(h):
    """Is the last parse in this history one of two different parsers?"""
    builds = {op["h"]: op["x"] for op in h if op["o"] == "build"}
    w = [op for op in h if op["o"] in ("wrap", "spin")][0]
    if w["o"] == "spin":
        return builds[w["h"]] != builds[w["x"]] and len({op["h"] for op in h if op["o"] == "begin"}) == 2
    return builds[w["x"]] != builds[w["y"]] and [op for op in h if op["o"] == "begin"][-1]["h"] == w["h"]


def random_pool(rng, n):
    out = []
    while len(out) < n:
        G, t = rng.choice([corpora.ruled, corpora.mapped, corpora.general])(rng)
        if arity(t) > 3:
            continue
        g = flatten(t)
        if len(g) > 18 or any(x["op"] in ("user", "says", "probe") for x in g):
            continue
        good, bad = [], []
        for s in G.inputs(g, 20):
            if len(s) > 8:
                continue
            c = corpora.case(g, s, cap=150)
            if c:
                (good if c["full"] else bad).append(s)
        if good and bad and len(good) + len(bad) >= 3:
            ts = (good[:3] + bad[:3])[:5]
            ts += [x for x in (twin(t) for t in ts[:2]) if x not in ts and corpora.case(g, x, cap=150)]
            out.append({"g": g, "texts": ts})
    return out


def write_pool(run, pool, name):
    path = os.path.join(run.work, name + ".pool")
    with open(path, "w") as f:
        for p in pool:
            f.write(json.dumps(p) + "\n")
    return path


def emitted(out):
    seen, res = set(), []
    for ln in out.split("\n"):
        if ln.startswith('"HIST '):
            s = json.loads(ln)[5:]
            if s not in seen:
                seen.add(s)
                res.append(json.loads(s))
    return res


def shifted(g, by):
    return [dict(n, k=[k + by if k else 0 for k in n["k"]]) for n in g]


def around(sh, a, b):
    """Around of spec/Objects.tla; used only to leave out texts that would
    take too long."""
    nd = lambda op, k, a=(), s="": {"op": op, "k": list(k), "a": list(a), "s": s}
    n = len(a)
    if sh in ("pair", "alt"):
        return [nd(sh, [2, 3]), nd("by", [4]), nd("by", [4 + n])] + shifted(a, 3) + shifted(b, 3 + n)
    if sh == "lines":
        return [nd("star", [2], s="lines"), nd("line", [3]), nd("by", [4])] + shifted(a, 3)
    if sh == "list":
        return [nd("rs", [2, 3], [900]), nd("ref", [3], [900, 1]), nd("pair", [4, 5]), nd("by", [9]), nd("opt", [6]),
                nd("pair", [7, 8]), nd("lit", [], [44]), nd("ref", [3], [900, 1])] + shifted(a, 8)
    return [nd(sh, [2], [800] if sh == "map" else []), nd("by", [3])] + shifted(a, 2)


def tame(pool, h, cap=400):
    """The history with costly texts replaced by the empty one."""
    defs, memo = {}, {}
    out = []
    for op in h:
        if op["o"] == "build":
            defs[op["h"]] = pool[op["x"] - 1]["g"]
        elif op["o"] == "wrap":
            defs[op["h"]] = around(op["s"], defs[op["x"]], defs[op["y"]])
        elif op["o"] in ("begin", "drill", "spin"):
            g = defs[op["h"]]
            k = (json.dumps(g), tuple(op["src"]))
            if k not in memo:
                memo[k] = corpora.case(g, op["src"], cap=cap) is not None
            if not memo[k]:
                op = dict(op, src=[])
        out.append(op)
    return out


def generate(run, pool, cfg, name, args=(), workers=1):
    path = write_pool(run, pool, name)
    st = tools.tlc("History.tla", cfg + ".cfg", run.work, {"POOL": path}, args=list(args), workers=workers)
    if st["rc"] != 0:
        raise ToolError(f"History/{cfg}: exit {st['rc']}\n{tools.trim(st['out'])}")
    hs = emitted(st["out"])
    run.count(st)
    log(f"{cfg}: {len(hs)} histories in {st['wall']:.1f} s")
    return path, hs


def judge(run, pool, path, hs, name, scheds=("turns", "free")):
    cases = []
    for i, h in enumerate(hs):
        h = tame(pool, h)
        cases.append({"mode": "history", "pool": [p["g"] for p in pool], "hist": h, "sched": scheds[i % len(scheds)]})
    res = run.run_cases(cases, name)
    for r in res:
        r.setdefault("runs", [])
        r["kind"] = r["kind"] or "history"
    slim = [{"kind": r["kind"], "runs": [{"i": x["i"], "res": {k: v for k, v in x["res"].items() if k != "used"}}
                                         for x in r["runs"]]} for r in res]
    before = run.traces
    run.judge(cases, name, "Replayed", slim, env={"POOL": path}, drop=("pool", "sched"))
    run.note("histories", len(res))
    run.note("parses_in_histories", sum(len(r["runs"]) for r in res))


def shared_programs(run, n, texts, first):
    """Copied, borrowed, sent and shared parsers of parser! programs."""
    rng = run.rng
    out = []
    while len(out) < n:
        g = surface.ProgGen(rng)
        defs, types, alpha = g.program()
        if not surface.arity_ok(defs) or len(flatten(surface.desugar(defs))) > 40:
            continue
        for d in defs:
            d.pop("amp", None)
        p = surface.Program(first + len(out), defs, types, alpha, rng)
        # parsers with rules belong to one thread; hash_set() and its like are not Copy
        ops = {n["op"] for n in flatten(surface.desugar(defs))}
        fn = "own" if any(d["rules"] for d in defs) else "lend" if "coll" in ops else "share"
        p.rust = f"pub fn f(j: &Job) -> Shown {{\n    {p.text}\n    vh::surface::{fn}(j, p)\n}}\n"
        p.shared = True
        out.append(p)
    return out


def share(run, n, texts, first, name):
    progs = shared_programs(run, n, texts, first)
    cases = []
    for p in progs:
        cs = p.cases(run.rng, texts)
        cs += [c for c in (p.case(twin(c["src"], run.rng.randint(1, 9))) for c in cs[:texts // 2]) if c]
        cs.sort(key=lambda c: len(c["src"]))
        for i in range(0, len(cs), 6):
            grp_ = cs[i:i + 6]
            cases.append({"pid": p.id, "src": [], "srcs": [c["src"] for c in grp_], "cs": grp_})
    run_shared(run, progs, cases, name)


def run_shared(run, progs, cases, name):
    root = surface.package(progs, name)
    bad, r = surface.compile_package(root)
    for p in progs:
        if p.id in bad:
            run.bad.append(({"compile"}, {"prog": p.text, "syn": p.syn, "src": [], "rust": p.rust, "srcs": []},
                            {"kind": "does not compile", "msg": bad[p.id]}))
    if bad:
        return
    res = surface.execute(run, progs, cases, root)
    flat, fres = [], []
    for c, r in zip(cases, res):
        if r is None:
            continue
        if r.get("kind") != "shared":
            run.bad.append(({"missing"}, {"prog": c["cs"][0]["prog"], "syn": c["cs"][0]["syn"], "src": [], "srcs": c["srcs"],
                                          "rust": next(p.rust for p in progs if p.id == c["pid"])}, r))
            continue
        for x in r["runs"]:
            k = c["cs"][x["i"]]
            flat.append({"prog": k["prog"], "syn": k["syn"], "src": k["src"], "mode": "parse", "how": x["how"],
                         "srcs": c["srcs"], "rust": next(p.rust for p in progs if p.id == c["pid"])})
            fres.append(tools.fill(x["res"]))
    # equal results of equal programs on equal texts need one judgement
    uniq, ures = {}, []
    for c, r in zip(flat, fres):
        k = json.dumps([c["syn"], c["src"], {a: b for a, b in r.items() if a != "used"}], sort_keys=True)
        if k not in uniq:
            uniq[k] = c
            ures.append(r)
    run.note("shared_parses", len(flat))
    run.judge(list(uniq.values()), name, "Surface", ures, drop=("prog", "how", "srcs", "rust"))


def decide(run):
    run.harness()
    rng = run.rng
    fixed = fixed_pool()
    # more of everything than small counters can tell apart
    for cfg, n in (("HistoryBuilds", 60), ("HistoryParses", 24), ("HistoryTurns", 16)):
        path, hs = generate(run, twins(), cfg, cfg, workers=8)
        hs = corpora_thin(rng, [h for h in hs if telling(h)], n if run.quick else 10 * n)
        judge(run, twins(), path, hs, cfg, ("turns",))
    mc = [fixed[0], fixed[2], fixed[11]]
    small = [{"g": p["g"], "texts": p["texts"][:2]} for p in mc]
    generate(run, small[:2], "HistoryMC", "mc", workers=8)
    if run.quick:
        path, hs = generate(run, [{"g": small[0]["g"], "texts": small[0]["texts"]}, small[2]], "HistoryAll", "all", workers=8)
        hs = corpora_thin(rng, hs, 1500)
        judge(run, small[:1] + small[2:], path, hs, "all", ("turns",))
        pool = fixed + random_pool(rng, 8)
        path, hs = generate(run, pool, "HistoryGen", "gen", ["-simulate", "num=40", "-depth", "40", "-seed", str(tools.SEED)], workers=8)
        judge(run, pool, path, hs, "gen")
        share(run, 60, 12, 5000, "shared")
    else:
        k = 0
        path, hs = generate(run, [small[0], small[2]], "HistoryAll", "all", workers=8)
        judge(run, [small[0], small[2]], path, hs[:40000], "all", ("turns",))
        while time.time() < run.deadline - 200 and not run.relevant():
            k += 1
            pool = fixed + random_pool(rng, 20)
            path, hs = generate(run, pool, "HistoryGen", f"gen{k}", ["-simulate", "num=150", "-depth", "40", "-seed", str(tools.SEED * 1000 + k)], workers=8)
            judge(run, pool, path, hs, f"gen{k}")
            share(run, 150, 30, 5000, f"shared")


def corpora_thin(rng, xs, n):
    return xs if len(xs) <= n else [xs[i] for i in sorted(rng.sample(range(len(xs)), n))]


def replay(run, c):
    run.harness()
    if "rust" in c:
        class P:
            pass
        p = P()
        p.id, p.text, p.syn, p.rust = 1, c["prog"], c["syn"], c["rust"]
        cs = [{"prog": p.text, "syn": p.syn, "src": s} for s in c["srcs"]]
        return run_shared(run, [p], [{"pid": 1, "src": [], "srcs": c["srcs"], "cs": cs}], "shared")
    pool = [{"g": g, "texts": [[]]} for g in c["pool"]]
    path = write_pool(run, pool, "replay")
    judge(run, pool, path, [c["hist"]], "replay", (c["sched"],))
