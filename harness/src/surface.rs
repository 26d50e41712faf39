//! What the generated parser! programs (lib/surface.py) are linked with.
use crate::dynp::call_record;
use crate::report::{observe, on_desk, Opts};
use crate::val::{text, ToVal, Val};
use aoc_parse::macros as am;
use aoc_parse::{ParseError, Parser};
use serde_json::{json, Value as J};

pub struct Job {
    pub src: String,
    /// for share and own
    pub srcs: Vec<String>,
}
pub struct Shown(pub J);

/// The conversion every closure does.
pub fn m(tag: i64, args: Vec<Val>) -> Val {
    call_record(tag, args)
}

pub fn run(j: &Job, f: impl FnOnce(&str) -> Result<Val, ParseError>) -> Shown {
    let o = Opts { trace: false, fuel: 0 };
    Shown(observe(&[], &j.src, &o, || f(&j.src), |e| e))
}

fn go<P>(out: &mut Vec<J>, how: &str, j: &Job, order: &[usize], p: &P)
where
    P: Parser,
    P::Output: ToVal,
{
    let o = Opts { trace: false, fuel: 0 };
    for &i in order {
        let res = on_desk(&j.srcs[i], |s| observe(&[], s, &o, || p.parse(s).map(|x| x.to_val()), |e| e));
        out.push(json!({"i": i, "how": how, "res": res}));
    }
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    let fwd: Vec<usize> = (0..n).collect();
    let back: Vec<usize> = (0..n).rev().collect();
    let mut rot = fwd.clone();
    rot.rotate_left(n / 2);
    let twice: Vec<usize> = (0..n).flat_map(|i| [i, i]).collect();
    vec![fwd, back, rot, twice]
}

/// A parser that can be copied and sent, used in all the ways it can be.
pub fn share<P>(j: &Job, p: P) -> Shown
where
    P: Parser + Copy + Send + Sync,
    P::Output: ToVal,
{
    let mut out = vec![];
    let os = orders(j.srcs.len());
    go(&mut out, "first", j, &os[0], &p);
    let q = p;
    go(&mut out, "copy", j, &os[1], &q);
    #[allow(clippy::clone_on_copy)]
    go(&mut out, "clone", j, &os[2], &p.clone().clone());
    let all = std::thread::scope(|s| {
        let mut hs = vec![];
        for k in 0..4usize {
            let (os, pr) = (&os, &p);
            hs.push(s.spawn(move || {
                let mut out = vec![];
                for r in 0..3 {
                    go(&mut out, "shared by threads", j, &os[(k + r) % 4], pr);
                }
                out
            }));
            hs.push(s.spawn(move || {
                let mut out = vec![];
                go(&mut out, "sent to a thread", j, &os[k], &q);
                out
            }));
        }
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    for r in all {
        match r {
            Ok(v) => out.extend(v),
            Err(_) => return Shown(json!({"kind": "panic", "msg": "in a thread"})),
        }
    }
    go(&mut out, "original after its copies were used", j, &os[3], &p);
    parts(&mut out, j, &os, &p);
    Shown(json!({"kind": "shared", "runs": out}))
}

/// A parser that cannot be copied, but shared by threads.
pub fn lend<P>(j: &Job, p: P) -> Shown
where
    P: Parser + Send + Sync,
    P::Output: ToVal,
{
    let os = orders(j.srcs.len());
    let all = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4usize)
            .map(|k| {
                let (os, pr) = (&os, &p);
                s.spawn(move || {
                    let mut out = vec![];
                    for r in 0..3 {
                        go(&mut out, "shared by threads", j, &os[(k + r) % 4], pr);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    let mut out = vec![];
    for r in all {
        match r {
            Ok(v) => out.extend(v),
            Err(_) => return Shown(json!({"kind": "panic", "msg": "in a thread"})),
        }
    }
    let Shown(mut j) = own(j, p);
    j["runs"].as_array_mut().unwrap().append(&mut out);
    Shown(j)
}

/// Part of larger parsers, by reference.
fn parts<P>(out: &mut Vec<J>, j: &Job, os: &[Vec<usize>], p: &P)
where
    P: Parser,
    P::Output: ToVal,
{
    go(out, "reference to a reference", j, &os[2], &&p);
    go(out, "grouped", j, &os[0], &am::single_value(p));
    go(out, "both arms", j, &os[1], &am::alt(p, p));
    let a = am::single_value(p);
    let b = am::alt(&a, p);
    go(out, "shared by two larger parsers", j, &os[2], &b);
    go(out, "the smaller of them", j, &os[0], &a);
    go(out, "after nothing", j, &os[3], &am::sequence(am::empty(), &b));
}

/// A parser that can only be moved.
pub fn own<P>(j: &Job, p: P) -> Shown
where
    P: Parser,
    P::Output: ToVal,
{
    let mut out = vec![];
    let os = orders(j.srcs.len());
    go(&mut out, "first", j, &os[0], &p);
    parts(&mut out, j, &os, &p);
    let q = Box::new(p);
    go(&mut out, "moved to the heap", j, &os[1], &*q);
    let mut v = vec![*q];
    v.reserve(1000);
    go(&mut out, "moved to a vector", j, &os[2], &v[0]);
    parts(&mut out, j, &os, &v[0]);
    let p = v.pop().unwrap();
    drop(v);
    go(&mut out, "moved back", j, &os[3], &p);
    Shown(json!({"kind": "shared", "runs": out}))
}

// ------------------------------------------ functions the programs may call

pub fn nothing() -> impl Parser<Output = (), RawOutput = ()> + Copy {
    am::empty()
}
/// A user's function may well clone what it is given.
#[allow(clippy::clone_on_copy)]
pub fn boxed<P: Parser + Copy>(p: P) -> impl Parser<Output = P::Output, RawOutput = (P::Output,)> + Copy {
    am::single_value(p).clone()
}
pub fn tagged<P>(tag: i64, p: P) -> impl Parser<Output = Val, RawOutput = (Val,)> + Copy
where
    P: Parser + Copy,
    P::Output: ToVal,
{
    am::map(p, move |x: P::Output| m(tag, vec![x.to_val()]))
}
#[allow(clippy::clone_on_copy)]
pub fn three<A, B, C>(
    a: A,
    b: B,
    c: C,
) -> impl Parser<Output = (A::Output, (B::Output, C::Output)), RawOutput = (A::Output, (B::Output, C::Output))> + Copy
where
    A: Parser + Copy,
    B: Parser + Copy,
    C: Parser + Copy,
{
    am::pair(a.clone(), am::pair(b, c)).clone()
}

#[allow(clippy::clone_on_copy)]
pub fn five<A, B, S>(m1: i64, a: A, n1: i64, b: B, s: S) -> impl Parser<Output = Val, RawOutput = (Val,)> + Copy
where
    A: Parser + Copy,
    B: Parser + Copy,
    S: Parser<Output = (), RawOutput = ()> + Copy,
    A::Output: ToVal,
    B::Output: ToVal,
{
    am::map(am::sequence(am::pair(a, b.clone()), s).clone(), move |x: (A::Output, B::Output)| {
        m(10 * m1 + n1, vec![x.to_val()])
    })
}

/// vh-style driver: run CASES OUT SKIP LIMIT.
pub fn main(f: impl Fn(i64, &Job) -> Shown + Send + 'static) {
    crate::driver::drive(move |c: &J| {
        let text_of = |x: &J| text(&x.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect::<Vec<_>>());
        let srcs = c["srcs"].as_array().map(|a| a.iter().map(text_of).collect()).unwrap_or_default();
        let j = Job { src: text_of(&c["src"]), srcs };
        f(c["pid"].as_i64().unwrap(), &j).0
    });
}
