"""Spoilt recordings: what the judges must object to.

A judge that no longer notices anything would pass every tree.  Each check
therefore takes some of its recordings that were found right, falsifies one
detail in each, and has TLC judge them too: every one must be objected to, for
that reason."""
import copy

ODD = {"t": "u", "n": [], "s": [{"t": "u", "n": [], "s": []}, {"t": "u", "n": [], "s": []}, {"t": "u", "n": [], "s": []}]}


def parse_result(r, full=True):
    """(aspect, falsified recording) for one recorded parse."""
    def but(**kw):
        return dict(copy.deepcopy(r), **kw)
    yield "returns", but(kind="panic")
    yield "calls", but(calls=r["calls"] + [ODD])
    if r["calls"]:
        yield "calls", but(calls=r["calls"][1:])
        yield "calls", but(calls=r["calls"] + r["calls"][:1])
    if r["kind"] == "ok":
        yield "accept", but(kind="err")
        yield "value", but(v=ODD)
        v = r["v"]
        if v["s"] and v["t"] not in ("set", "map"):
            yield "value", but(v=dict(v, s=v["s"][1:]))
        if v["t"] == "n" and v["n"]:
            yield "value", but(v=dict(v, n=v["n"][:-1] + [v["n"][-1] ^ 1]))
    else:
        yield "accept", but(kind="ok")
        yield "loc", but(loc=r["loc"] + 1)
        if r["loc"]:
            yield "loc", but(loc=r["loc"] - 1)
        if not full:
            return
        yield "source", but(srcok=False)
        yield "linecol", but(lc=[r["lc"][0] + 1, r["lc"][1]])
        yield "linecol", but(lc=[r["lc"][0], r["lc"][1] + 1])
        yield "debug", but(dbg=False)
        yield "reason", but(form=False)
        yield "reason", but(why=[])
        yield "reason", but(why=[[w[0], w[1] + 1000, *w[2:]] for w in r["why"]])
        yield "reason", but(why=[["none", *w[1:]] for w in r["why"]])
        if any(w[0] == "told" for w in r["why"]):
            yield "reason", but(why=[[*w[:2], w[2] + 1000] if w[0] == "told" else ["none"] + w[1:] for w in r["why"]])
        if ["fromstr"] in [w[:1] for w in r["why"]]:
            yield "reason", but(q=r["q"] + [48])


def offers(r):
    def but(**kw):
        return dict(copy.deepcopy(r), **kw)
    ms = r["ms"]
    yield "stable", but(stable=False)
    yield "returns", but(kind="panic")
    if ms:
        if not r["more"]:
            yield "offers", but(ms=ms[:-1], k=0)
            yield "offers", but(ms=ms + ms[-1:], k=0)
        yield "offers", but(ms=[dict(ms[0], e=ms[0]["e"] + 1)] + ms[1:])
        yield "value", but(ms=ms[:-1] + [dict(ms[-1], v=ODD)])
        yield "calls", but(ms=ms[:-1] + [dict(ms[-1], calls=ms[-1]["calls"] + [ODD])])
    elif not r["more"]:
        yield "loc", but(end=dict(r["end"], loc=r["end"]["loc"] + 1))
        yield "loc", but(end=dict(r["end"], srcok=False))
        yield "loc", but(end=dict(r["end"], kind="none"))


def protocol(r):
    ev = r["ev"]
    def put(i, *new):
        return dict(copy.deepcopy(r), ev=ev[:i] + [list(x) for x in new] + ev[i + 1:])
    at = {k: [i for i, e in enumerate(ev) if e[0] == k] for k in range(1, 7)}
    mid = lambda k: at[k][len(at[k]) // 2]
    if at[1]:
        i = mid(1)
        yield "start", put(i, ev[i][:5] + [ev[i][5] + 900])
        yield "start", put(i, ev[i][:2] + [ev[i][2] + 900] + ev[i][3:])
        yield "start", put(i, ev[i], ev[i])
    if at[2]:
        i = mid(2)
        yield "offer", put(i, [2, ev[i][1], 900])
        yield "offer", put(i, ev[i], ev[i])
        yield "dead", put(i, ev[i], [6, ev[i][1], 0])
    if at[3]:
        i = mid(3)
        yield "nomore", put(i, ev[i], ev[i])
    if at[4]:
        i = mid(4)
        yield "next", put(i, ev[i], ev[i])
        yield "next", put(i, ev[i][:2] + [ev[i][2] + 1] + ev[i][3:])
    if at[5]:
        i = at[5][0]
        yield "convert", put(i, ev[i], ev[i])
    if r["kind"] == "ok":
        yield "value", dict(r, v=ODD)
        yield "accept", dict(r, kind="err")
    elif r["kind"] == "err":
        yield "accept", dict(r, kind="ok")


def replayed(r):
    runs = r["runs"]
    for i, x in enumerate(runs[:2]):
        yield "missing", dict(r, runs=runs[:i] + runs[i + 1:])
        if x["res"]["kind"] in ("ok", "err"):
            for a, y in parse_result(x["res"]):
                yield a, dict(r, runs=runs[:i] + [dict(x, res=y)] + runs[i + 1:])


def spoilt(module, rng, cases, results, limit=60):
    """[(aspect, case, falsified result)], with every kind of falsification."""
    how = {"Offers": offers, "Protocol": protocol, "Replayed": replayed,
           "Surface": lambda r: parse_result(r, False)}.get(module, parse_result)
    idx = list(range(len(cases)))
    rng.shuffle(idx)
    out, had = [], {}
    for i in idx:
        r = results[i]
        if module != "Replayed" and r.get("kind") not in ("ok", "err", "all"):
            continue
        if len(cases[i].get("src", [])) > 200 or len(out) >= limit:
            continue
        made = list(how(r))
        rng.shuffle(made)
        made.sort(key=lambda x: had.get(x[0], 0))
        for a, x in made[:2]:
            had[a] = had.get(a, 0) + 1
            out.append((a, cases[i], x))
    return out
