"""What each property's check does."""
import hashlib
import json
import os
import random
import re
import time

import tools
from tools import ToolError, log
from model import *
import corpora

ASPECTS = {
    "P01": {"accept"},
    "P02": {"value", "accept"},
    "P03": {"value", "accept", "returns", "compile"},
    "P04": {"value", "accept", "returns"},
    "P05": {"returns"},
    "P06": {"value", "accept", "returns"},
    "P07": {"value", "accept", "returns"},
    "P08": {"calls"},
    "P09": {"loc", "source"},
    "P10": {"reason", "linecol", "debug"},
    "P11": {"value", "accept", "calls", "returns", "loc", "compile"},
    "P12": {"value", "accept", "returns"},
    "P13": {"value", "accept", "returns", "loc"},
    "P14": {"value", "accept", "returns"},
    "P15": {"value", "accept", "calls", "returns"},
    "P16": {"value", "accept", "returns"},
    "P19": {"value", "accept", "calls", "returns", "loc", "source", "reason", "linecol"},
    "P20": {"value", "accept", "start", "offer", "nomore", "next", "convert", "dead"},
    "P22": {"returns", "accept", "value", "calls", "loc", "source", "reason", "linecol", "debug"},
    "P21": {"returns", "offers", "value", "calls", "stable", "loc"},
}
WHAT = {
    "grammar": "the macro accepts what is not a pattern, or refuses what is",
    "returns": "parse did not return a value or an error",
    "accept": "accepts what does not match the whole input, or rejects what does",
    "value": "returned value is not that of the preferred match",
    "calls": "conversion closures ran other than once per part of the accepted match",
    "loc": "error offset is not the furthest failure",
    "source": "error does not carry the complete source",
    "reason": "error message does not name the first failure at the reported position",
    "linecol": "line and column of the error message are wrong",
    "start": "a parser was started where (or when) the pattern does not call for it",
    "offers": "the matches offered are not all the pattern has, in order of preference",
    "stable": "looking at a match, converting it, or using the parser elsewhere made a difference",
    "offer": "a match was offered outside the text",
    "nomore": "an iterator reported its end twice",
    "next": "an iterator was asked for its next match out of turn, or with another text",
    "convert": "an iterator was converted that is not part of the accepted match (or too early, or twice)",
    "dead": "an iterator was used after it had reported that it has no more matches",
    "missing": "not every parse came back",
    "compile": "a program in the documented syntax does not compile",
    "debug": "debug output does not contain the summary",
}
KNOWN = os.path.join(tools.VERIF, "KNOWN_FINDINGS.txt")
REPLAYS = os.path.join(tools.BUILD, "replay")


def key(case):
    """Identifies a case in the known-findings file."""
    c = {k: case[k] for k in ("g", "src", "mode", "st", "other", "k", "prog", "hist", "form") if k in case}
    return hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Run:
    def __init__(self, pid, work, tier, seed):
        self.pid, self.work, self.tier, self.seed = pid, work, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{pid}-{seed}-{tier}")
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.bad = []           # (aspects, case, result)
        self.deadline = time.time() + (600 if self.quick else 780)
        self.exe = None
        self.sound = set()

    def harness(self):
        if self.exe is None:
            self.exe = tools.build_harness()
        return self.exe

    def count(self, st):
        self.states += st["distinct"]
        self.transitions += max(0, st["generated"] - st["inits"])

    def note(self, name, n):
        self.extra[name] = self.extra.get(name, 0) + n

    # ---------------------------------------------------------- judging
    def run_cases(self, cases, name):
        return tools.run_lines([self.harness(), "run"], cases, self.work, name)

    def judge(self, cases, name, module="Conform", results=None, env=None, drop=()):
        """Run the cases on the library and have TLC compare; collects bad ones."""
        res = results if results is not None else self.run_cases(cases, name)
        cases = cases[:len(res)]
        before = len(self.bad)
        try:
            self.judged(cases, res, name, module, env, drop, 240 if self.quick else 700)
        except tools.TooSlow:
            # one case is too big for TLC: set its neighbourhood aside
            n = len(cases) // 8 + 1
            for i in range(0, len(cases), n):
                try:
                    self.judged(cases[i:i + n], res[i:i + n], name, module, env, drop, 40)
                except tools.TooSlow:
                    self.note("not_judged", len(cases[i:i + n]))
                    log(f"{name}: {n} cases from {i} on take too long to judge")
        if module not in self.sound and len(self.bad) == before and len(cases) > 20:
            self.sound.add(module)
            self.alert(module, cases, res, env, drop)
        if not self.samples and cases:
            for i in self.rng.sample(range(len(cases)), min(3, len(cases))):
                self.samples.append(sample(cases[i], res[i]))
        return res

    def alert(self, module, cases, res, env, drop):
        """The judge objects to recordings that are not true."""
        import spoil
        made = spoil.spoilt(module, random.Random(self.seed), cases, res)
        kept = self.bad, self.traces, self.states, self.transitions
        self.bad = []
        self.judged([dict(c, spoilt=n) for n, (_, c, _) in enumerate(made)], [r for _, _, r in made], "spoilt", module, env, drop, 240)
        found = {c["spoilt"]: a for a, c, _ in self.bad}
        self.bad, self.traces, self.states, self.transitions = kept
        for n, (a, c, r) in enumerate(made):
            if a not in found.get(n, ()):
                raise ToolError(f"{module} does not object to a false recording ({a}):\n" + explain([a], c, r))
        self.note("false_recordings_rejected", len(made))

    def judged(self, cases, res, name, module, env, drop, timeout):
        path = os.path.join(self.work, name + ".ndjson")
        with open(path, "w") as f:
            for c, r in zip(cases, res):
                r = {k: x for k, x in r.items() if k != "ev" or module != "Conform"}
                f.write(json.dumps(dict({k: x for k, x in c.items() if k not in drop}, res=r)) + "\n")
        st = tools.tlc(module + ".tla", module + ".cfg", self.work, dict(env or {}, CASES=path), args=["-continue"], timeout=timeout)
        v = tools.verdicts(st["out"])
        # with -continue TLC exits 0 or 12 when it has reported violations
        if bool(v) != ("is violated" in st["out"]) or st["rc"] not in (0, 12):
            raise ToolError(f"TLC on {name}: exit {st['rc']}, {len(v)} verdicts\n{tools.trim(st['out'])}")
        if "todo" in {a for s in v.values() for a in s}:
            raise ToolError("unjudged case")
        self.count(st)
        self.traces += len(cases)
        for i, a in sorted(v.items()):
            self.bad.append((a, cases[i], res[i]))
        os.remove(path)

    def machine(self, cases, name, cfg="MachineMC"):
        """Model-check the parsing machine on the cases (no library involved)."""
        if not cases:
            return
        path = os.path.join(self.work, name + ".mc")
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps({k: c[k] for k in ("g", "src", "st") if k in c}) + "\n")
        st = tools.tlc(("MachineAll" if cfg == "MachineAll" else "MachineMC") + ".tla", cfg + ".cfg", self.work, {"CASES": path})
        if st["rc"] != 0:
            raise ToolError(f"specification check failed on {name}\n{tools.trim(st['out'])}")
        self.count(st)
        self.note(cfg + "_cases", len(cases))
        os.remove(path)

    def large(self):
        """Sizes beyond enumeration, judged by closed forms that TLC has
        compared with the specification on small sizes."""
        small = corpora.large(False, self.pid)
        path = os.path.join(self.work, "largemc.ndjson")
        with open(path, "w") as f:
            for c in small:
                f.write(json.dumps({k: c[k] for k in ("fam", "n", "g", "src")}) + "\n")
        st = tools.tlc("Large.tla", "LargeMC.cfg", self.work, {"CASES": path})
        if st["rc"] != 0:
            raise ToolError(f"closed forms disagree with the specification\n{tools.trim(st['out'])}")
        self.count(st)
        self.note("closed_forms_checked", len(small))
        cases = corpora.large(True, self.pid)
        self.judge(cases, "large", "Large", drop=("fuel", "stack"))
        self.note("large_cases", len(cases))

    # -------------------------------------------------------- reporting
    def relevant(self):
        asp = ASPECTS.get(self.pid)
        out = []
        for a, c, r in self.bad:
            hit = a if asp is None else a & asp
            if hit:
                out.append((hit, c, r))
        return out

    def report(self):
        rel = self.relevant()
        known = known_findings(self.pid)
        seen, fresh = {}, []
        for hit, c, r in rel:
            k = key(c)
            if k in known:
                seen[k] = known[k]
            else:
                fresh.append((hit, c, r))
        for k, what in seen.items():
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if not fresh:
            print(f"{self.pid}: held on {self.traces} recorded executions, {self.states} states")
            return 0
        fresh.sort(key=lambda x: size(x[1]))
        hit, c, r = fresh[0]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "aspects": sorted(hit), "case": c, "observed": r}, f, indent=1)
        print(f"{len(fresh)} of {self.traces} executions are not what the specification allows; the smallest:")
        print(explain(hit, c, r))
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1

    def write_evidence(self, wall):
        d = os.path.join(tools.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": "model_checking", "coverage": cov,
              "assumptions": ["the TLA+ specification says what the documentation means",
                              "what is recorded by the harness is what happened",
                              "behaviours outside the generated grammars, texts and histories are not explored"],
              "wall_s": round(wall, 2), "violations": len(self.relevant())}
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def size(c):
    return (len(c.get("g", [])) * 3 + len(c.get("src", [])) + len(json.dumps(c.get("hist", c.get("prog", c.get("form", ""))))))


def show(g, d=1, seen=()):
    """A grammar, roughly in parser! syntax."""
    if d == 0:
        return "\"\""
    n = g[d - 1]
    op, k, a, s = n["op"], n["k"], n["a"], n["s"]
    sub = lambda i: show(g, k[i], seen + (d,))
    txt = lambda: json.dumps("".join(map(chr, a)), ensure_ascii=False)
    if op in ("lit",):
        return txt()
    if op == "chr":
        return repr(chr(a[0]))
    if op == "cls":
        return s if s != "any" else "any_char"
    if op == "charof":
        return f"char_of({txt()})"
    if op == "int":
        return s + {10: "", 2: "_bin", 16: "_hex"}[a[0]]
    if op == "user":
        return f"user{d}({','.join(map(str, a))})"
    if op == "says":
        return f"says{d}({','.join(f'{'match' if a[i] == 0 else ('expected', 'extra', 'fromstr', 'passed')[a[i] - 1]}{a[i + 1]:+}' for i in range(0, len(a), 2))})"
    if op in ("empty", "bool"):
        return op
    if op == "float":
        return s
    if op == "seq":
        return f"{sub(0)} {sub(1)}"
    if op == "pair":
        return f"pair({sub(0)}, {sub(1)})"
    if op == "alt":
        return "{" + f"{sub(0)}, {sub(1)}" + "}"
    if op in ("opt", "star", "plus"):
        return f"({sub(0)})" + {"opt": "?", "star": "*", "plus": "+"}[op]
    if op == "repsep":
        return f"repeat_sep({sub(0)}, {sub(1)})"
    if op == "grp":
        return f"({sub(0)})"
    if op == "by":
        return f"&({sub(0)})"
    if op == "probe":
        return f"{s}{d}({sub(0)})"
    if op in ("map", "mapl"):
        return f"({sub(0)} => #{a})"
    if op in ("string", "line", "section"):
        return f"{op}({sub(0)})"
    if op == "coll":
        return f"{s}({sub(0)})"
    if op == "rs":
        return "(" + " ".join(f"rule r{a[0]}_{i} = {show(g, x, seen + (d,))};" for i, x in enumerate(k[1:], 1)) + f" {sub(0)})"
    if op == "ref":
        return f"r{a[0]}_{a[1]}"
    return f"<{op}>"


def source(c):
    return "".join(map(chr, c.get("src", [])))


def sample(c, r):
    out = {"text": source(c), "kind": r.get("kind")}
    if "prog" in c:
        out["program"] = c["prog"]
    elif "g" in c:
        out["pattern"] = show(c["g"])
    if "hist" in c:
        out = {"history": c["hist"]}
    if r.get("kind") == "err":
        out.update(message=r["msg"], offset=r["loc"])
    elif r.get("kind") == "ok":
        out["value"] = r["v"]
    if "ev" in r:
        out["events"] = len(r["ev"])
    return out


def explain(hit, c, r):
    ln = []
    if "hist" in c:
        ln.append("  history: " + json.dumps(c["hist"])[:3000])
    elif "form" in c:
        ln.append("  tokens:  " + " ".join(c["form"]) + f"   ({'a' if c['want'] == 'good' else 'not a'} pattern)")
    elif "prog" in c:
        ln.append("  program: " + c["prog"])
        ln.append("  text:    " + repr(source(c)))
    else:
        ln.append("  pattern: " + show(c["g"])[:1500])
        ln.append("  text:    " + repr(source(c)) + ("   (through aoc_parse)" if c.get("mode") == "aoc" else ""))
    ln.append("  observed: " + json.dumps({k: x for k, x in r.items() if k not in ("ev", "parts")}, ensure_ascii=False)[:1500])
    for a in sorted(hit):
        ln.append("  wrong:   " + WHAT.get(a, a))
    return "\n".join(ln)


# ------------------------------------------------------------------ deciding

def thin(rng, cases, n):
    return cases if len(cases) <= n else [cases[i] for i in sorted(rng.sample(range(len(cases)), n))]


LARGE = {"P01", "P02", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P19"}


def spec_cases(rng, cases, n, cap=70):
    small = [c for c in cases if c["steps"] <= cap and len(c["src"]) <= 24]
    return thin(rng, small, n)


def decide(run):
    if run.pid == "P17":
        import history
        return history.decide(run)
    if run.pid == "P18":
        import surface
        return surface.decide(run)
    run.harness()
    conform(run)
    if run.pid in ("P03", "P11"):
        import surface
        surface.some(run)


def conform(run):
    pid, rng = run.pid, run.rng
    module = {"P20": "Protocol", "P21": "Offers"}.get(pid, "Conform")
    if run.quick:
        fam, ran = corpora.corpus(pid, rng, 12000)
        cases = thin(rng, fam, 14000) + ran
        rng.shuffle(cases)
        run.judge(cases, "cases", module)
        run.machine(spec_cases(rng, fam, 500) + spec_cases(rng, ran, 500), "spec")
        if pid == "P05":
            run.machine(spec_cases(rng, cases, 250, 40), "live", "MachineLive")
        if pid == "P21":
            run.machine(spec_cases(rng, cases, 600, 60), "all", "MachineAll")
        if pid == "P20":
            run.machine(spec_cases(rng, cases, 400, 40), "parts", "MachineParts")
        if pid in LARGE:
            run.large()
    else:
        if pid in LARGE:
            run.large()
        fam, ran = corpora.corpus(pid, rng, 10000, quick=False)
        rng.shuffle(fam)
        run.machine(spec_cases(rng, fam, 4000, 150) + spec_cases(rng, ran, 4000, 150), "spec")
        run.machine(spec_cases(rng, fam, 500, 60) + spec_cases(rng, ran, 500, 60), "live", "MachineLive")
        run.machine(spec_cases(rng, fam, 1000, 80) + spec_cases(rng, ran, 1000, 80), "parts", "MachineParts")
        if pid == "P21":
            run.machine(spec_cases(rng, fam, 3000, 150) + spec_cases(rng, ran, 3000, 150), "all", "MachineAll")
        for i in range(0, len(fam), 20000):
            run.judge(fam[i:i + 20000], f"fam{i}", module)
        run.judge(ran, "random", module)
        i = 0
        while time.time() < run.deadline - 150 and not run.relevant():
            i += 1
            run.judge(corpora.corpus(pid, rng, 15000, families_too=False)[1], f"random{i}", module)


def replay(run, rep):
    c = rep["case"]
    if "hist" in c or "rust" in c:
        import history
        return history.replay(run, c)
    if "prog" in c:
        import surface
        return surface.replay(run, c)
    run.judge([c], "replay", {"P20": "Protocol", "P21": "Offers"}.get(run.pid, "Large" if "fam" in c else "Conform"))
