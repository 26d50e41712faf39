"""Building the harness, running it, running TLC, reporting."""
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
sys.setrecursionlimit(20000)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET, RUSTFLAGS="")
    return e


def repo_hash():
    """Hash of what the library is built from (contents, not times)."""
    h = hashlib.sha256()
    for root in ("src", "Cargo.toml"):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def cargo(args, cwd, timeout=800):
    return subprocess.run(["cargo"] + args, cwd=cwd, env=env(), text=True, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def fresh_library(cwd):
    """Forget the compiled library if its sources differ from last time's."""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "repo.hash")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        if os.path.isdir(TARGET):
            cargo(["clean", "--offline", "-p", "aoc-parse"], cwd)
        with open(stamp, "w") as f:
            f.write(now)


class TooSlow(ToolError):
    pass


class CompileError(Exception):
    pass


def build_harness():
    d = os.path.join(VERIF, "harness")
    fresh_library(d)
    r = cargo(["build", "--offline", "--bin", "vh"], d)
    if r.returncode != 0:
        raise CompileError(r.stdout[-4000:])
    return os.path.join(TARGET, "debug", "vh")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_lines(cmd, cases, workdir, name, limit=10, total=400):
    """Run `cmd CASES OUT SKIP LIMIT` until every case has a result line."""
    cf = os.path.join(workdir, name + ".cases")
    of = os.path.join(workdir, name + ".out")
    with open(cf, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    open(of, "w").close()
    res = []
    bad = 0
    t0 = time.time()
    while len(res) < len(cases):
        try:
            r = subprocess.run(cmd + [cf, of, str(len(res)), str(limit)], stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, text=True, preexec_fn=limits,
                               timeout=max(30, total - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            raise ToolError(f"{name}: harness did not finish in time")
        with open(of) as f:
            raw = f.read()
        lines = raw.split("\n")
        torn = lines.pop()          # '' unless the last line is incomplete
        res = [json.loads(x) for x in lines]
        for i, x in enumerate(res):
            if "harness:" in x.get("msg", ""):
                raise ToolError(f"{name}: case {i}: {x['msg']}: {json.dumps(cases[i])[:1500]}")
        if torn:
            with open(of, "w") as f:
                f.write("".join(x + "\n" for x in lines))
        if len(res) == len(cases):
            break
        if r.returncode == 0:
            raise ToolError(f"{name}: harness stopped early")
        if r.returncode == 101:     # a panic in the harness itself
            raise ToolError(f"{name}: harness panicked on case {len(res)}: {r.stderr[-500:]}")
        bad += 1
        if r.returncode != 3:       # killed: stack overflow, abort, out of memory
            with open(of, "a") as f:
                f.write(json.dumps({"kind": "crash", "msg": f"exit {r.returncode}"}) + "\n")
            res.append({"kind": "crash", "msg": f"exit {r.returncode}"})
        if bad >= 5:                # enough evidence; do not spend the budget on more
            break
    return [fill(x) for x in res]


def fill(r):
    out = {"kind": "", "v": {"t": "u", "n": [], "s": []}, "loc": 0, "srcok": True, "why": [],
           "lc": [0, 0], "form": True, "q": [], "dbg": True, "msg": "", "calls": []}
    out.update(r)
    return out


def tlc(module, cfg, workdir, env_vars=None, workers=8, args=(), timeout=700, xmx="10g"):
    """Run TLC; returns its output and statistics."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    e = dict(os.environ)
    e.update(env_vars or {})
    cmd = ["java", "-Xss512m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC,
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *args, module]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TooSlow(f"TLC on {module} did not finish in {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    mi = re.search(r"Finished computing initial states: (\d+)", out)
    st = {"rc": r.returncode, "out": out, "wall": time.time() - t0,
          "generated": int(m.group(1)) if m else 0,
          "inits": int(mi.group(1)) if mi else 0, "distinct": int(m.group(2)) if m else 0}
    if r.returncode not in (0, 10, 11, 12, 13):
        raise ToolError(f"TLC on {module}: exit {r.returncode}\n{trim(out)}")
    return st


def trim(out):
    lines = [x for x in out.split("\n") if not x.startswith(("Parsing file", "Semantic proc", "Linting", "Computed "))]
    return "\n".join(x[:600] for x in lines[-60:])


def verdicts(out):
    """{case index (0-based): set of aspects} from Conform-style output."""
    v = {}
    for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
        v[int(m.group(1)) - 1] = set(re.findall(r'"([a-z]+)"', m.group(2)))
    return v
