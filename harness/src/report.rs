//! Runs a parser on a text and writes down what an observer sees.
use crate::dynp::{OTHER_TEXT, says_expected, says_message, GNode, OutOfFuel, Rec, REC, SAYS_TYPE};
use crate::val::{text, Val};
use aoc_parse::{ParseContext, ParseError, ParseIter, Parser, Reported};
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static DESK: std::cell::RefCell<Vec<String>> = Default::default();
}

/// Calls f with the text, which lies where earlier texts lay (one place for
/// each level of nesting).
pub fn on_desk<T>(text: &str, f: impl FnOnce(&str) -> T) -> T {
    let mut place = DESK.with(|d| d.borrow_mut().pop()).unwrap_or_else(|| String::with_capacity(1 << 16));
    place.clear();
    place.push_str(text);
    let out = f(&place);
    DESK.with(|d| d.borrow_mut().push(place));
    out
}

pub struct Opts {
    pub trace: bool,
    pub fuel: u64,
}

/// The error's text is the one parsed. (The error of another text which a
/// user handed over may keep that text.)
fn source_fits(err: &ParseError, src: &str) -> bool {
    let other = err.location == 0 && err.source == OTHER_TEXT && err.to_string().starts_with("expected \"\\u{1}\\u{2}\"");
    err.source == src || other
}

/// What the printed error says: which (reason, node) pairs of the grammar
/// would produce exactly this text, line and column, and the quoted numeral.
pub fn describe(g: &[GNode], err: &ParseError, src: &str) -> J {
    let msg = format!("{err}");
    let (head, lc, wherewas) = split_suffix(&msg);
    let mut why: Vec<J> = vec![];
    let mut quoted: Vec<i64> = vec![];
    match head {
        "extra unparsed text after match" => why.push(json!(["extra", 1])),
        _ => {}
    }
    for (i, n) in g.iter().enumerate() {
        let d = i + 1;
        let noun = noun(n, d);
        if let Some(noun) = &noun {
            if head == format!("expected {noun}") {
                why.push(json!(["exp", d]));
            }
        }
        match n.op.as_str() {
            "line" => {
                if head == "line() can't match here because this is not at the start of a line" {
                    why.push(json!(["badline", d]));
                }
                if head == "line(pattern) matched part of the line, but not all of it" {
                    why.push(json!(["lineextra", d]));
                }
                if head == "expected line" {
                    why.push(json!(["expline", d]));
                }
            }
            "section" => {
                if head == "section() can't match here because this is not at the start of a section" {
                    why.push(json!(["badsec", d]));
                }
                if head == "section(pattern) matched part of the section, but not all of it" {
                    why.push(json!(["secextra", d]));
                }
                if head == "expected section" {
                    why.push(json!(["expsec", d]));
                }
            }
            "says" => {
                let says = |w: i64| n.a.chunks(2).any(|x| x[0] == w);
                if says(2) && head == "extra unparsed text after match" {
                    why.push(json!(["extra", d]));
                }
                if says(4) && head == "expected \"\\u{1}\\u{2}\"" {
                    why.push(json!(["passed", d]));
                }
                if says(3) {
                    let rest = err.source.get(err.location..).unwrap_or("");
                    for (k, at) in rest.char_indices().map(|x| x.0).chain([rest.len()]).enumerate().take(80) {
                        if head == format!("failed to parse {:?} as type {SAYS_TYPE}: {}", &rest[..at], says_message(d)) {
                            why.push(json!(["told", d, k]));
                        }
                    }
                }
            }
            "int" => {
                let ty = noun.unwrap();
                if let Some(rest) = head.strip_prefix("failed to parse \"") {
                    if let Some((q, tail)) = rest.split_once('"') {
                        if let Some(m) = tail.strip_prefix(&format!(" as type {ty}: ")) {
                            if !m.is_empty() {
                                why.push(json!(["fromstr", d]));
                                quoted = q.chars().map(|c| c as i64).collect();
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let srcok = source_fits(err, src);
    // every way of printing it shows the same summary
    let esc = format!("{msg:?}");
    let says = |text: String| text.contains(&esc) || text.contains(&msg);
    let copy = err.clone();
    let dbg = says(format!("{err:?}")) && says(format!("{err:#?}")) && says(format!("{copy:?}")) && copy.to_string() == msg;
    json!({
        "kind": "err", "loc": err.location.min(1 << 30), "srcok": srcok,
        "why": why, "lc": lc, "form": wherewas, "q": quoted,
        "dbg": dbg, "msg": msg,
    })
}

/// "... at line L column C" / "... at end of input"
fn split_suffix(msg: &str) -> (&str, [i64; 2], bool) {
    if let Some(h) = msg.strip_suffix(" at end of input") {
        return (h, [0, 0], true);
    }
    if let Some(p) = msg.rfind(" at line ") {
        let tail = &msg[p + 9..];
        if let Some((l, c)) = tail.split_once(" column ") {
            if let (Ok(l), Ok(c)) = (l.parse::<i64>(), c.parse::<i64>()) {
                return (&msg[..p], [l.min(1 << 30), c.min(1 << 30)], true);
            }
        }
    }
    (msg, [-1, -1], false)
}

fn noun(n: &GNode, d: usize) -> Option<String> {
    Some(match n.op.as_str() {
        "lit" => format!("{:?}", text(&n.a)),
        "chr" => format!("{:?}", char::from_u32(n.a[0] as u32).unwrap()),
        "cls" => match n.s.as_str() {
            "alpha" => "letter",
            "alnum" => "letter or digit",
            "upper" => "uppercase letter",
            "lower" => "lowercase letter",
            "any" => "any character",
            "digit" => "decimal digit",
            "digit_bin" => "binary digit",
            "digit_hex" => "hexadecimal digit",
            o => panic!("harness: class {o}"),
        }
        .to_string(),
        "charof" => format!("one of {:?}", text(&n.a)),
        "int" => match n.s.as_str() {
            "big_int" => std::any::type_name::<num_bigint::BigInt>().to_string(),
            "big_uint" => std::any::type_name::<num_bigint::BigUint>().to_string(),
            s => s.to_string(),
        },
        "bool" => "bool".to_string(),
        "float" => n.s.clone(),
        "user" => format!("user{d}"),
        "says" => says_expected(d),
        "probe" if n.s == "not" => format!("user{d}"),
        _ => return None,
    })
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".to_string()
    }
}

/// Run `f` (a parse of `src`) with a fresh recorder; re-entrant.
pub fn observe<E>(
    g: &[GNode],
    src: &str,
    o: &Opts,
    f: impl FnOnce() -> Result<Val, E>,
    to_err: impl FnOnce(E) -> ParseError,
) -> J {
    let fresh = Rec { trace: o.trace, fuel: o.fuel, ..Rec::default() };
    let saved = REC.with(|r| std::mem::replace(&mut *r.borrow_mut(), fresh));
    let res = catch_unwind(AssertUnwindSafe(f));
    let rec = REC.with(|r| std::mem::replace(&mut *r.borrow_mut(), saved));
    let described = match res {
        Ok(Ok(v)) => json!({"kind": "ok", "v": v.json()}),
        Ok(Err(e)) => {
            let e = to_err(e);
            match catch_unwind(AssertUnwindSafe(|| describe(g, &e, src))) {
                Ok(j) => j,
                Err(p) => json!({"kind": "panic", "msg": format!("printing the error: {}", panic_text(&*p))}),
            }
        }
        Err(p) if p.is::<OutOfFuel>() => json!({"kind": "diverged"}),
        Err(p) => json!({"kind": "panic", "msg": panic_text(&*p)}),
    };
    let mut out = json!({
        "kind": "", "v": {"t": "u", "n": [], "s": []}, "loc": 0, "srcok": true, "why": [],
        "lc": [0, 0], "form": true, "q": [], "dbg": true, "msg": "",
    });
    for (k, x) in described.as_object().unwrap() {
        out[k] = x.clone();
    }
    out["calls"] = J::Array(rec.calls.iter().map(|c| c.json()).collect());
    out["used"] = json!(rec.used.min(1 << 30));
    if o.trace {
        out["ev"] = json!(rec.events);
    }
    out
}

/// So many matches are looked at.
const ENOUGH: usize = 60;

fn calls_since() -> Vec<J> {
    REC.with(|r| std::mem::take(&mut r.borrow_mut().calls)).iter().map(|c| c.json()).collect()
}

/// The error a context holds, if any.
fn held(ctx: ParseContext) -> Option<ParseError> {
    catch_unwind(AssertUnwindSafe(|| ctx.into_reported_error())).ok()
}

/// User code that starts a parser itself at `st` and goes through the matches
/// it offers: once converting each of them (twice), once converting none and
/// stepping another iterator of the same parser (started at `other`) in
/// between, and once only up to the k-th match.
pub fn drive<P: Parser>(
    p: &P,
    user: impl Fn(P::RawOutput) -> Val,
    src: &str,
    st: usize,
    other: usize,
    k: usize,
) -> J {
    let (mut ms, mut more, mut stable) = (vec![], false, true);
    let mut ctx = ParseContext::new(src);
    let mut ends = vec![];
    if let Ok(mut it) = p.parse_iter(&mut ctx, st) {
        loop {
            let e = it.match_end();
            calls_since();
            let v = user(it.convert());
            let calls = calls_since();
            stable &= it.match_end() == e;
            let again = user(it.convert());
            stable &= again.json() == v.json() && calls_since() == calls;
            ends.push(e);
            ms.push(json!({"e": e.min(1 << 30), "v": v.json(), "calls": calls}));
            if ms.len() == ENOUGH {
                more = true;
                break;
            }
            if let Err(Reported) = it.backtrack(&mut ctx) {
                break;
            }
        }
    }
    let end = held(ctx);

    // No conversion; another iterator at work.
    let (mut c1, mut c2) = (ParseContext::new(src), ParseContext::new(src));
    let mut second = p.parse_iter(&mut c2, other).ok();
    let mut seen = vec![];
    if let Ok(mut it) = p.parse_iter(&mut c1, st) {
        loop {
            seen.push(it.match_end());
            if seen.len() == ENOUGH {
                break;
            }
            if let Some(s) = &mut second {
                if seen.len() % 3 != 0 && s.backtrack(&mut c2).is_err() {
                    second = None;
                }
            }
            if let Err(Reported) = it.backtrack(&mut c1) {
                break;
            }
        }
    }
    drop(second);
    stable &= seen == ends && calls_since().is_empty();

    let mid = if k == 0 {
        None
    } else {
        let mut ctx = ParseContext::new(src);
        let mut n = 0;
        if let Ok(mut it) = p.parse_iter(&mut ctx, st) {
            n = 1;
            while n < k && it.backtrack(&mut ctx).is_ok() {
                n += 1;
            }
        }
        if n == k { held(ctx) } else { None }
    };
    let show = |e: Option<ParseError>| match e {
        None => json!({"kind": "none", "loc": 0, "srcok": true}),
        Some(e) => json!({"kind": "err", "loc": e.location.min(1 << 30), "srcok": source_fits(&e, src)}),
    };
    json!({"kind": "all", "ms": ms, "more": more, "stable": stable, "end": show(end), "mid": show(mid), "k": k})
}

/// `drive` with a fresh recorder.
pub fn observe_all(o: &Opts, f: impl FnOnce() -> J) -> J {
    let fresh = Rec { trace: o.trace, fuel: o.fuel, ..Rec::default() };
    let saved = REC.with(|r| std::mem::replace(&mut *r.borrow_mut(), fresh));
    let res = catch_unwind(AssertUnwindSafe(f));
    REC.with(|r| *r.borrow_mut() = saved);
    match res {
        Ok(j) => j,
        Err(p) if p.is::<OutOfFuel>() => json!({"kind": "diverged"}),
        Err(p) => json!({"kind": "panic", "msg": panic_text(&*p)}),
    }
}
