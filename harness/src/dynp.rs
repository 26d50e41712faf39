//! Real library parsers, assembled at run time from an abstract grammar
//! (spec/Patterns.tla), with a recording wrapper at every node.
//!
//! Every node of arity n (number of values it contributes) is a
//! `Node<(Val, .. n times ..)>`; between the wrappers sit the library's own
//! combinators. Values are turned into `Val` by adapters that are ordinary
//! user-written parsers.
use crate::val::{text, v, Radix, ToVal, Val};
use aoc_parse::macros as am;
use aoc_parse::prelude as ap;
use aoc_parse::{ParseContext, ParseIter, Parser, Reported};
use serde_json::Value as J;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

// ---------------------------------------------------------------- recording

/// Payload of the panic that ends a parse which has used up its fuel.
pub struct OutOfFuel;

#[derive(Default)]
pub struct Rec {
    pub trace: bool,
    pub events: Vec<Vec<i64>>,
    pub calls: Vec<Val>,
    pub fuel: u64,
    pub used: u64,
    pub base: usize,
    pub started: bool,
    pub charpos: Vec<i64>,
    pub next_it: i64,
    pub depth: u64,
    pub maxdepth: u64,
}

pub const PI: i64 = 1;
pub const OK: i64 = 2;
pub const NO: i64 = 3;
pub const BT: i64 = 4;
pub const CV: i64 = 5;
pub const DEAD: i64 = 6;

thread_local! {
    pub static REC: RefCell<Rec> = RefCell::new(Rec::default());
    /// Run inside a conversion closure (used to start parses from there).
    pub static HOOK: RefCell<Option<Box<dyn FnOnce(i64)>>> = const { RefCell::new(None) };
    /// Run when the first wrapper in a parse has an answer (used to start parses
    /// while another one is matching).
    pub static MATCH_HOOK: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}

fn tick() {
    let out = REC.with(|r| {
        let r = &mut *r.borrow_mut();
        r.used += 1;
        r.fuel != 0 && r.used > r.fuel
    });
    if out {
        std::panic::panic_any(OutOfFuel);
    }
}

impl Rec {
    fn pos(&self, byte: usize) -> i64 {
        self.charpos.get(byte).copied().unwrap_or(-1)
    }
}

fn rec_pi(d: u32, ctx: &ParseContext, start: usize) -> i64 {
    tick();
    if d == 0 {
        return 0;
    }
    REC.with(|r| {
        let r = &mut *r.borrow_mut();
        let src = ctx.source();
        if !r.started {
            r.started = true;
            r.base = src.as_ptr() as usize;
            if r.trace {
                r.charpos = vec![-1; src.len() + 1];
                let mut n = 0;
                for (i, _) in src.char_indices() {
                    r.charpos[i] = n;
                    n += 1;
                }
                r.charpos[src.len()] = n;
            }
        }
        r.next_it += 1;
        let it = r.next_it;
        if r.trace {
            let lo = (src.as_ptr() as usize).wrapping_sub(r.base);
            let ev = vec![PI, it, d as i64, r.pos(lo), r.pos(lo.wrapping_add(src.len())), r.pos(lo.wrapping_add(start))];
            r.events.push(ev);
        }
        it
    })
}

fn rec(kind: i64, it: i64, ctx: Option<&ParseContext>, e: usize) {
    if it == 0 {
        return;
    }
    if kind == OK || kind == NO {
        let hook = MATCH_HOOK.with(|h| h.borrow_mut().take());
        if let Some(f) = hook {
            f();
        }
    }
    REC.with(|r| {
        let r = &mut *r.borrow_mut();
        if r.trace {
            let p = match ctx {
                Some(c) => {
                    let lo = (c.source().as_ptr() as usize).wrapping_sub(r.base);
                    r.pos(lo.wrapping_add(e))
                }
                None => e as i64,
            };
            r.events.push(vec![kind, it, p]);
        }
    })
}

fn rec_bt(it: i64, ctx: &ParseContext) {
    if it == 0 {
        return;
    }
    REC.with(|r| {
        let r = &mut *r.borrow_mut();
        if r.trace {
            let src = ctx.source();
            let lo = (src.as_ptr() as usize).wrapping_sub(r.base);
            let ev = vec![BT, it, r.pos(lo), r.pos(lo.wrapping_add(src.len()))];
            r.events.push(ev);
        }
    })
}

// ------------------------------------------------------- type-erased parsers

pub trait Dp<R> {
    fn dp<'p>(
        &'p self,
        ctx: &mut ParseContext<'p>,
        start: usize,
    ) -> Result<Box<dyn ParseIter<'p, RawOutput = R> + 'p>, Reported>;
    /// The same parser at another address.
    fn moved(self: Box<Self>) -> Box<dyn Dp<R>>;
}

impl<Q, R> Dp<R> for Q
where
    Q: Parser<RawOutput = R> + 'static,
{
    fn moved(self: Box<Self>) -> Box<dyn Dp<R>> {
        let mut to: Box<std::mem::MaybeUninit<Self>> = Box::new(std::mem::MaybeUninit::uninit());
        to.write(*self);
        // SAFETY: just written.
        unsafe { Box::from_raw(Box::into_raw(to) as *mut Self) }
    }
    fn dp<'p>(
        &'p self,
        ctx: &mut ParseContext<'p>,
        start: usize,
    ) -> Result<Box<dyn ParseIter<'p, RawOutput = R> + 'p>, Reported> {
        Ok(Box::new(self.parse_iter(ctx, start)?))
    }
}

/// A recording wrapper around a parser.
pub struct Node<R> {
    d: u32,
    inner: Box<dyn Dp<R>>,
}

pub struct NodeIter<'p, R> {
    it: i64,
    inner: Box<dyn ParseIter<'p, RawOutput = R> + 'p>,
    dead: Cell<bool>,
}

impl<R: 'static> Node<R> {
    pub fn moved(self) -> Node<R> {
        Node { d: self.d, inner: self.inner.moved() }
    }
}

pub fn node<Q, R>(d: usize, q: Q) -> Node<R>
where
    Q: Parser<RawOutput = R> + 'static,
{
    Node { d: d as u32, inner: Box::new(q) }
}

fn node_start<'p, R>(
    n: &'p Node<R>,
    ctx: &mut ParseContext<'p>,
    start: usize,
) -> Result<NodeIter<'p, R>, Reported> {
    let it = rec_pi(n.d, ctx, start);
    match n.inner.dp(ctx, start) {
        Ok(inner) => {
            rec(OK, it, Some(ctx), inner.match_end());
            Ok(NodeIter { it, inner, dead: Cell::new(false) })
        }
        Err(r) => {
            rec(NO, it, None, 0);
            Err(r)
        }
    }
}

impl<'p, R> ParseIter<'p> for NodeIter<'p, R> {
    type RawOutput = R;
    fn match_end(&self) -> usize {
        if self.dead.get() {
            rec(DEAD, self.it, None, 0);
        }
        self.inner.match_end()
    }
    fn backtrack(&mut self, ctx: &mut ParseContext<'p>) -> Result<(), Reported> {
        tick();
        if self.dead.get() {
            rec(DEAD, self.it, None, 1);
        }
        rec_bt(self.it, ctx);
        match self.inner.backtrack(ctx) {
            Ok(()) => {
                rec(OK, self.it, Some(ctx), self.inner.match_end());
                Ok(())
            }
            Err(r) => {
                self.dead.set(true);
                rec(NO, self.it, None, 0);
                Err(r)
            }
        }
    }
    fn convert(&self) -> R {
        if self.dead.get() {
            rec(DEAD, self.it, None, 2);
        }
        rec(CV, self.it, None, 0);
        self.inner.convert()
    }
}

macro_rules! arities {
    ( $( $n:literal $a:ident ( $($t:ty,)* ) $o:ty ; )* ) => {
        /// A parser of any arity.
        pub enum Any { $( $a(Node<( $($t,)* )>), )* }
        $(
            impl Parser for Node<( $($t,)* )> {
                type Output = $o;
                type RawOutput = ( $($t,)* );
                type Iter<'p> = NodeIter<'p, ( $($t,)* )>;
                fn parse_iter<'p>(&'p self, ctx: &mut ParseContext<'p>, start: usize)
                    -> Result<Self::Iter<'p>, Reported> {
                    node_start(self, ctx, start)
                }
            }
        )*
        impl Any {
            pub fn arity(&self) -> usize { match self { $( Any::$a(_) => $n, )* } }
            pub fn moved(self) -> Any { match self { $( Any::$a(p) => Any::$a(p.moved()), )* } }
            pub fn parse_val(&self, src: &str) -> Result<Val, aoc_parse::ParseError> {
                match self { $( Any::$a(p) => p.parse(src).map(|x| x.to_val()), )* }
            }
            /// Drives the parser by hand; see report::all.
            pub fn drive(&self, src: &str, st: usize, other: usize, k: usize) -> J {
                match self { $( Any::$a(p) => crate::report::drive(p, |r| r.user(), src, st, other, k), )* }
            }
            pub fn aoc_parse_val<E: From<aoc_parse::ParseError>>(&self, src: &str) -> Result<Val, E> {
                match self { $( Any::$a(p) => ap::aoc_parse::<_, E>(src, p).map(|x| x.to_val()), )* }
            }
        }
        /// Evaluate $body with $p bound to the parser inside, whatever its arity.
        macro_rules! each { ($any:expr, $p:ident => $body:expr) => { match $any { $( Any::$a($p) => $body, )* } } }
        macro_rules! same { ($x:expr, $y:expr, $p:ident $q:ident => $body:expr) => {
            match ($x, $y) { $( (Any::$a($p), Any::$a($q)) => $body, )* _ => panic!("harness: arms of different arity") } } }
    };
}
arities! {
    0 A0 () ();
    1 A1 (Val,) Val;
    2 A2 (Val, Val,) (Val, Val);
    3 A3 (Val, Val, Val,) (Val, Val, Val);
    4 A4 (Val, Val, Val, Val,) (Val, Val, Val, Val);
    5 A5 (Val, Val, Val, Val, Val,) (Val, Val, Val, Val, Val);
    6 A6 (Val, Val, Val, Val, Val, Val,) (Val, Val, Val, Val, Val, Val);
    7 A7 (Val, Val, Val, Val, Val, Val, Val,) (Val, Val, Val, Val, Val, Val, Val);
    8 A8 (Val, Val, Val, Val, Val, Val, Val, Val,) (Val, Val, Val, Val, Val, Val, Val, Val);
}

macro_rules! few { ($any:expr, $p:ident => $body:expr) => { match $any {
    Any::A0($p) => $body, Any::A1($p) => $body, Any::A2($p) => $body, Any::A3($p) => $body,
    _ => panic!("harness: arity over 3 here") } } }

// ------------------------------------------------------------------ adapters

/// Changes a parser's value with a function of the raw value and matched text.
pub struct Adapt<Q, F> {
    q: Q,
    f: F,
}
pub struct AdaptIter<'p, Q: Parser + 'p, F> {
    inner: Q::Iter<'p>,
    f: &'p F,
    source: &'p str,
    start: usize,
}
impl<Q, F, U> Parser for Adapt<Q, F>
where
    Q: Parser,
    F: Fn(Q::RawOutput, &str) -> U + 'static,
{
    type Output = U;
    type RawOutput = (U,);
    type Iter<'p>
        = AdaptIter<'p, Q, F>
    where
        Q: 'p,
        F: 'p;
    fn parse_iter<'p>(&'p self, ctx: &mut ParseContext<'p>, start: usize) -> Result<Self::Iter<'p>, Reported> {
        let inner = self.q.parse_iter(ctx, start)?;
        Ok(AdaptIter { inner, f: &self.f, source: ctx.source(), start })
    }
}
impl<'p, Q, F, U> ParseIter<'p> for AdaptIter<'p, Q, F>
where
    Q: Parser,
    F: Fn(Q::RawOutput, &str) -> U,
{
    type RawOutput = (U,);
    fn match_end(&self) -> usize {
        self.inner.match_end()
    }
    fn backtrack(&mut self, ctx: &mut ParseContext<'p>) -> Result<(), Reported> {
        self.inner.backtrack(ctx)
    }
    fn convert(&self) -> (U,) {
        let txt = self.source.get(self.start..self.inner.match_end()).unwrap_or("\u{fffd}bad range");
        ((self.f)(self.inner.convert(), txt),)
    }
}

fn adapt<Q, F, U>(q: Q, f: F) -> Adapt<Q, F>
where
    Q: Parser,
    F: Fn(Q::RawOutput, &str) -> U + 'static,
{
    Adapt { q, f }
}

fn erase<Q, T>(d: usize, q: Q) -> Any
where
    Q: Parser<RawOutput = (T,)> + 'static,
    T: ToVal,
{
    Any::A1(node(d, adapt(q, |(x,): (T,), _: &str| x.to_val())))
}
fn erase_int<Q, T>(d: usize, radix: u32, q: Q) -> Any
where
    Q: Parser<RawOutput = (T,)> + 'static,
    T: Radix,
{
    Any::A1(node(d, adapt(q, move |(x,): (T,), _: &str| x.radix(radix))))
}

// ---------------------------------------------------------- user-written leaf

/// Offers the given match lengths (in characters) in order.
struct UserLeaf {
    d: usize,
    lens: Vec<i64>,
}
struct UserIter {
    offers: Vec<(i64, usize)>,
    at: usize,
}
impl Parser for UserLeaf {
    type Output = Val;
    type RawOutput = (Val,);
    type Iter<'p> = UserIter;
    fn parse_iter<'p>(&'p self, ctx: &mut ParseContext<'p>, start: usize) -> Result<UserIter, Reported> {
        let rest = &ctx.source()[start..];
        let mut offers = vec![];
        for (i, len) in self.lens.iter().enumerate() {
            let len = *len as usize;
            let end = if len == 0 {
                Some(0)
            } else {
                rest.char_indices().nth(len - 1).map(|(at, c)| at + c.len_utf8())
            };
            if let Some(e) = end {
                offers.push((i as i64 + 1, start + e));
            }
        }
        if offers.is_empty() {
            return Err(ctx.error_expected(start, &format!("user{}", self.d)));
        }
        Ok(UserIter { offers, at: 0 })
    }
}
impl<'p> ParseIter<'p> for UserIter {
    type RawOutput = (Val,);
    fn match_end(&self) -> usize {
        self.offers[self.at].1
    }
    fn backtrack(&mut self, _ctx: &mut ParseContext<'p>) -> Result<(), Reported> {
        if self.at + 1 < self.offers.len() {
            self.at += 1;
            Ok(())
        } else {
            Err(Reported)
        }
    }
    fn convert(&self) -> (Val,) {
        ((self.offers[self.at].0 as u64).to_val(),)
    }
}

/// What it says it expected, and so on: any text will do.
pub fn says_expected(d: usize) -> String {
    format!(" user{d} {{é}}\t\"at line 7 column 7\"\n")
}
pub const SAYS_TYPE: &str = "Says<'p> {0}";
pub const OTHER_TEXT: &str = "\u{3}";
pub fn says_message(d: usize) -> String {
    format!("said{d}: no \"ü\" at end of input\n ")
}

/// Offers matches and tells of failures: see `says` in spec/Patterns.tla.
struct Says {
    d: usize,
    script: Vec<(i64, i64)>,
}
struct SaysIter<'p> {
    leaf: &'p Says,
    start: usize,
    line: usize,
    end: usize,
}
impl<'p> SaysIter<'p> {
    /// The place `off` characters from the start, as far as there are any.
    fn place(&self, src: &str, off: i64) -> usize {
        if off < 0 {
            let back = src[..self.start].char_indices().rev().nth(-off as usize - 1);
            back.map_or(0, |(at, _)| at)
        } else {
            self.forward(src, off).unwrap_or(src.len())
        }
    }
    fn forward(&self, src: &str, off: i64) -> Option<usize> {
        let rest = &src[self.start..];
        rest.char_indices().map(|(at, _)| at).chain([rest.len()]).nth(off as usize).map(|at| self.start + at)
    }
    fn go_on(&mut self, ctx: &mut ParseContext<'p>) -> Result<(), Reported> {
        let src = ctx.source();
        while let Some((what, off)) = self.leaf.script.get(self.line).copied() {
            self.line += 1;
            match what {
                0 => {
                    if let Some(end) = self.forward(src, off) {
                        self.end = end;
                        return Ok(());
                    }
                }
                1 => {
                    ctx.error_expected(self.place(src, off), &says_expected(self.leaf.d));
                }
                2 => {
                    ctx.error_extra(self.place(src, off));
                }
                3 => {
                    let end = self.place(src, off);
                    ctx.error_from_str_failed(self.start, end, SAYS_TYPE, says_message(self.leaf.d));
                }
                _ => {
                    let at = self.place(src, off);
                    // ... of a whole parse, or of one driven by hand
                    let mut err = if off % 2 == 0 {
                        match Parser::parse(&"\u{1}\u{2}", &src[at..]) {
                            Ok(()) => panic!("harness: control characters in a text"),
                            Err(e) => e,
                        }
                    } else {
                        let mut own = ParseContext::new(&src[at..]);
                        match Parser::parse_iter(&"\u{1}\u{2}", &mut own, 0) {
                            Ok(_) => panic!("harness: control characters in a text"),
                            Err(Reported) => own.into_reported_error(),
                        }
                    };
                    err.location = at;
                    // ... or even of another text, which need not be as long
                    err.source = if at == 0 && !src.is_empty() { OTHER_TEXT.to_string() } else { src.to_string() };
                    ctx.report(err);
                }
            }
        }
        Err(Reported)
    }
}
impl Parser for Says {
    type Output = Val;
    type RawOutput = (Val,);
    type Iter<'p> = SaysIter<'p>;
    fn parse_iter<'p>(&'p self, ctx: &mut ParseContext<'p>, start: usize) -> Result<SaysIter<'p>, Reported> {
        let mut it = SaysIter { leaf: self, start, line: 0, end: start };
        let silent = |x: &(i64, i64)| x.0 == 0 && it.forward(ctx.source(), x.1).is_none();
        if self.script.iter().all(silent) {
            return Err(ctx.error_expected(start, &says_expected(self.d)));
        }
        it.go_on(ctx)?;
        Ok(it)
    }
}
impl<'p> ParseIter<'p> for SaysIter<'p> {
    type RawOutput = (Val,);
    fn match_end(&self) -> usize {
        self.end
    }
    fn backtrack(&mut self, ctx: &mut ParseContext<'p>) -> Result<(), Reported> {
        self.go_on(ctx)
    }
    fn convert(&self) -> (Val,) {
        ((self.line as u64).to_val(),)
    }
}

// ------------------------------------------------- user-written combinators

/// A parser around another one: see `probe` in spec/Patterns.tla.
struct Probe {
    d: usize,
    how: How,
    q: Node<(Val,)>,
}
#[derive(Clone, Copy, PartialEq)]
enum How {
    Ahead,
    Not,
    Once,
    Odd,
}
struct ProbeIter<'p> {
    how: How,
    start: usize,
    inner: Option<NodeIter<'p, (Val,)>>,
}
impl Parser for Probe {
    type Output = Val;
    type RawOutput = (Val,);
    type Iter<'p> = ProbeIter<'p>;
    fn parse_iter<'p>(&'p self, ctx: &mut ParseContext<'p>, start: usize) -> Result<ProbeIter<'p>, Reported> {
        let how = self.how;
        match (how, self.q.parse_iter(ctx, start)) {
            (How::Not, Ok(_)) => Err(ctx.error_expected(start, &format!("user{}", self.d))),
            (How::Not, Err(Reported)) => Ok(ProbeIter { how, start, inner: None }),
            (_, found) => Ok(ProbeIter { how, start, inner: Some(found?) }),
        }
    }
}
impl<'p> ParseIter<'p> for ProbeIter<'p> {
    type RawOutput = (Val,);
    fn match_end(&self) -> usize {
        match (self.how, &self.inner) {
            (How::Once | How::Odd, Some(it)) => it.match_end(),
            _ => self.start,
        }
    }
    fn backtrack(&mut self, ctx: &mut ParseContext<'p>) -> Result<(), Reported> {
        match (self.how, &mut self.inner) {
            (How::Odd, Some(it)) => {
                it.backtrack(ctx)?;
                it.backtrack(ctx)
            }
            _ => Err(Reported),
        }
    }
    fn convert(&self) -> (Val,) {
        match &self.inner {
            Some(it) => it.convert(),
            None => (().to_val(),),
        }
    }
}

// ------------------------------------------------------------------- grammar

#[derive(Clone, Debug)]
pub struct GNode {
    pub op: String,
    pub k: Vec<usize>,
    pub a: Vec<i64>,
    pub s: String,
}

pub fn grammar(j: &J) -> Vec<GNode> {
    j.as_array()
        .unwrap()
        .iter()
        .map(|n| GNode {
            op: n["op"].as_str().unwrap().to_string(),
            k: n["k"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
            a: n["a"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect(),
            s: n["s"].as_str().unwrap().to_string(),
        })
        .collect()
}

pub fn arity(g: &[GNode], d: usize) -> usize {
    if d == 0 {
        return 0;
    }
    let n = &g[d - 1];
    match n.op.as_str() {
        "empty" | "lit" | "chr" => 0,
        "seq" => arity(g, n.k[0]) + arity(g, n.k[1]),
        "pair" => 2,
        "by" => arity(g, n.k[0]),
        _ => 1,
    }
}

// ------------------------------------------------------------------- builder

enum AnyRule {
    R0(am::RuleParser<()>),
    R1(am::RuleParser<Val>),
    R2(am::RuleParser<(Val, Val)>),
    R3(am::RuleParser<(Val, Val, Val)>),
}

macro_rules! leaked {
    ( $( $a:ident $t:ty ; )* ) => {
        #[derive(Clone, Copy)]
        pub enum Leaked { $( $a(&'static Node<$t>), )* }
        /// Borrow a parser; the caller sees to it that it outlives its use.
        pub unsafe fn lend(x: *const Any) -> Leaked { match &*x { $( Any::$a(p) => Leaked::$a(p), )* } }
        fn leak(x: Any) -> Leaked { match x { $( Any::$a(p) => Leaked::$a(Box::leak(Box::new(p))), )* } }
        fn borrowed(d: usize, l: Leaked) -> Any { match l { $( Leaked::$a(p) => Any::$a(node(d, p)), )* } }
    };
}
leaked! {
    A0 (); A1 (Val,); A2 (Val, Val); A3 (Val, Val, Val); A4 (Val, Val, Val, Val);
    A5 (Val, Val, Val, Val, Val); A6 (Val, Val, Val, Val, Val, Val);
    A7 (Val, Val, Val, Val, Val, Val, Val); A8 (Val, Val, Val, Val, Val, Val, Val, Val);
}

pub struct Builder<'g> {
    g: &'g [GNode],
    rules: HashMap<i64, Vec<AnyRule>>,
    pub shared: HashMap<usize, Leaked>,
}

/// Record that a conversion closure ran; its value.
pub fn call_record(tag: i64, args: Vec<Val>) -> Val {
    let out = v("m", vec![tag], args);
    REC.with(|r| r.borrow_mut().calls.push(out.clone()));
    let hook = HOOK.with(|h| h.borrow_mut().take());
    if let Some(f) = hook {
        f(tag);
    }
    out
}

/// Concatenations, for all pairs of arities that fit in 8 values.
macro_rules! seqs {
    ( $d:expr, $x:expr, $y:expr ; $( $r:ident = $( $l:ident $m:ident ),* ; )* ) => {
        match ($x, $y) {
            $( $( (Any::$l(p), Any::$m(q)) => Any::$r(node($d, am::sequence(p, q))), )* )*
            _ => panic!("harness: more than 8 values"),
        }
    };
}

impl<'g> Builder<'g> {
    pub fn new(g: &'g [GNode]) -> Self {
        Builder { g, rules: HashMap::new(), shared: HashMap::new() }
    }

    pub fn build(&mut self, d: usize) -> Any {
        let n = self.g[d - 1].clone();
        let leak_str = |cps: &[i64]| -> &'static str { Box::leak(text(cps).into_boxed_str()) };
        match n.op.as_str() {
            "empty" => Any::A0(node(d, am::empty())),
            "lit" => Any::A0(node(d, leak_str(&n.a))),
            "chr" => Any::A0(node(d, char::from_u32(n.a[0] as u32).unwrap())),
            "cls" => match n.s.as_str() {
                "alpha" => erase(d, ap::alpha),
                "alnum" => erase(d, ap::alnum),
                "upper" => erase(d, ap::upper),
                "lower" => erase(d, ap::lower),
                "any" => erase(d, ap::any_char),
                "digit" => erase(d, ap::digit),
                "digit_bin" => erase(d, ap::digit_bin),
                "digit_hex" => erase(d, ap::digit_hex),
                o => panic!("harness: class {o}"),
            },
            "charof" => erase(d, ap::char_of(leak_str(&n.a))),
            "int" => self.int(d, &n),
            "bool" => erase(d, ap::bool),
            "float" => {
                if n.s == "f32" {
                    Any::A1(node(d, adapt(ap::f32, |(x,): (f32,), _| x.to_val())))
                } else {
                    Any::A1(node(d, adapt(ap::f64, |(x,): (f64,), _| x.to_val())))
                }
            }
            "user" => Any::A1(node(d, UserLeaf { d, lens: n.a.clone() })),
            "says" => Any::A1(node(d, Says { d, script: n.a.chunks(2).map(|x| (x[0], x[1])).collect() })),
            "probe" => {
                let Any::A1(q) = one(self.build(n.k[0])) else { unreachable!() };
                let how = match n.s.as_str() {
                    "ahead" => How::Ahead,
                    "not" => How::Not,
                    "once" => How::Once,
                    "odd" => How::Odd,
                    o => panic!("harness: probe {o}"),
                };
                Any::A1(node(d, Probe { d, how, q }))
            }
            "seq" => {
                let (x, y) = (self.build(n.k[0]), self.build(n.k[1]));
                seqs! { d, x, y ;
                    A0 = A0 A0;
                    A1 = A0 A1, A1 A0;
                    A2 = A0 A2, A1 A1, A2 A0;
                    A3 = A0 A3, A1 A2, A2 A1, A3 A0;
                    A4 = A0 A4, A1 A3, A2 A2, A3 A1, A4 A0;
                    A5 = A0 A5, A1 A4, A2 A3, A3 A2, A4 A1, A5 A0;
                    A6 = A0 A6, A1 A5, A2 A4, A3 A3, A4 A2, A5 A1, A6 A0;
                    A7 = A0 A7, A1 A6, A2 A5, A3 A4, A4 A3, A5 A2, A6 A1, A7 A0;
                    A8 = A0 A8, A1 A7, A2 A6, A3 A5, A4 A4, A5 A3, A6 A2, A7 A1, A8 A0;
                }
            }
            "pair" => {
                let (x, y) = (self.build(n.k[0]), self.build(n.k[1]));
                few!(x, p => few!(y, q => Any::A2(node(d, PairErase(am::pair(p, q))))))
            }
            "alt" => {
                let (x, y) = (self.build(n.k[0]), self.build(n.k[1]));
                let (x, y) = if x.arity() == y.arity() { (x, y) } else { (one(x), one(y)) };
                same!(x, y, p q => erase(d, am::alt(p, q)))
            }
            "opt" => each!(self.build(n.k[0]), p => erase(d, am::opt(p))),
            "star" if n.s == "lines" => {
                each!(self.build(self.g[n.k[0] - 1].k[0]), p => erase(d, ap::lines(p)))
            }
            "star" if n.s == "sections" => {
                each!(self.build(self.g[n.k[0] - 1].k[0]), p => erase(d, ap::sections(p)))
            }
            "star" => each!(self.build(n.k[0]), p => erase(d, am::star(p))),
            "plus" => each!(self.build(n.k[0]), p => erase(d, am::plus(p))),
            "repsep" => {
                let (x, y) = (self.build(n.k[0]), self.build(n.k[1]));
                each!(x, p => few!(y, q => erase(d, ap::repeat_sep(p, q))))
            }
            "grp" => each!(self.build(n.k[0]), p => erase(d, am::single_value(p))),
            "map" => {
                let tag = n.a[0];
                each!(self.build(n.k[0]), p => {
                    erase(d, am::map(p, move |x| call_record(tag, vec![x.to_val()])))
                })
            }
            "mapl" => {
                let (tag, m, ix) = (n.a[0], n.a[1] as usize, n.a[2..].to_vec());
                each!(self.build(n.k[0]), p => {
                    erase(d, am::map(p, move |x| {
                        let x = x.to_val();
                        call_record(tag, ix.iter().map(|i| x.component(m, *i as usize)).collect())
                    }))
                })
            }
            "string" => each!(self.build(n.k[0]), p => erase(d, ap::string(p))),
            "line" => each!(self.build(n.k[0]), p => erase(d, ap::line(p))),
            "section" => each!(self.build(n.k[0]), p => erase(d, ap::section(p))),
            "coll" => {
                let Any::A1(p) = self.build(n.k[0]) else { panic!("harness: coll") };
                let list = |(x,): (Val,), _: &str| x.s;
                let pairs = |(x,): (Val,), _: &str| -> Vec<(Val, Val)> {
                    x.s.into_iter().map(|e| (e.s[0].clone(), e.s[1].clone())).collect()
                };
                match n.s.as_str() {
                    "hash_set" => erase(d, ap::hash_set(adapt(p, list))),
                    "btree_set" => erase(d, ap::btree_set(adapt(p, list))),
                    "vec_deque" => erase(d, ap::vec_deque(adapt(p, list))),
                    "hash_map" => erase(d, ap::hash_map(adapt(p, pairs))),
                    "btree_map" => erase(d, ap::btree_map(adapt(p, pairs))),
                    o => panic!("harness: collection {o}"),
                }
            }
            "by" => {
                let k = n.k[0];
                if !self.shared.contains_key(&k) {
                    let x = self.build(k);
                    let l = leak(x);
                    self.shared.insert(k, l);
                }
                borrowed(d, self.shared[&k])
            }
            "rs" => {
                let mut b = am::RuleSetBuilder::new();
                let rules: Vec<AnyRule> = n.k[1..]
                    .iter()
                    .map(|&body| match arity(self.g, body) {
                        0 => AnyRule::R0(b.new_rule()),
                        1 => AnyRule::R1(b.new_rule()),
                        2 => AnyRule::R2(b.new_rule()),
                        3 => AnyRule::R3(b.new_rule()),
                        _ => panic!("harness: rule arity"),
                    })
                    .collect();
                self.rules.insert(n.a[0], rules);
                for (i, &body) in n.k[1..].iter().enumerate() {
                    let x = self.build(body);
                    match (&self.rules[&n.a[0]][i], x) {
                        (AnyRule::R0(r), Any::A0(p)) => b.assign_parser_for_rule(r, p),
                        (AnyRule::R1(r), Any::A1(p)) => b.assign_parser_for_rule(r, p),
                        (AnyRule::R2(r), Any::A2(p)) => b.assign_parser_for_rule(r, p),
                        (AnyRule::R3(r), Any::A3(p)) => b.assign_parser_for_rule(r, p),
                        _ => unreachable!(),
                    }
                }
                let entry = self.build(n.k[0]);
                few!(entry, p => erase(d, b.build(p)))
            }
            "ref" => match &self.rules[&n.a[0]][n.a[1] as usize - 1] {
                AnyRule::R0(r) => erase(d, *r),
                AnyRule::R1(r) => erase(d, *r),
                AnyRule::R2(r) => erase(d, *r),
                AnyRule::R3(r) => erase(d, *r),
            },
            o => panic!("harness: op {o}"),
        }
    }

    fn int(&mut self, d: usize, n: &GNode) -> Any {
        macro_rules! table {
            ( $( $name:literal $dec:ident $bin:ident $hex:ident ; )* ) => {
                match (n.s.as_str(), n.a[0]) {
                    $( ($name, 10) => erase_int(d, 10, ap::$dec),
                       ($name, 2) => erase_int(d, 2, ap::$bin),
                       ($name, 16) => erase_int(d, 16, ap::$hex), )*
                    _ => panic!("harness: integer type"),
                }
            };
        }
        table! {
            "u8" u8 u8_bin u8_hex; "u16" u16 u16_bin u16_hex; "u32" u32 u32_bin u32_hex;
            "u64" u64 u64_bin u64_hex; "u128" u128 u128_bin u128_hex; "usize" usize usize_bin usize_hex;
            "i8" i8 i8_bin i8_hex; "i16" i16 i16_bin i16_hex; "i32" i32 i32_bin i32_hex;
            "i64" i64 i64_bin i64_hex; "i128" i128 i128_bin i128_hex; "isize" isize isize_bin isize_hex;
            "big_int" big_int big_int_bin big_int_hex; "big_uint" big_uint big_uint_bin big_uint_hex;
        }
    }
}

/// The same parser with its value as a single `Val`; not recorded.
fn one(x: Any) -> Any {
    each!(x, p => Any::A1(node(0, adapt(p, |r, _: &str| r.user()))))
}

trait UserVal {
    fn user(self) -> Val;
}
macro_rules! user_val { ( $( $t:ty ; )* ) => { $( impl UserVal for $t { fn user(self) -> Val { self.to_val() } } )* } }
user_val! { (); (Val, Val); (Val, Val, Val); (Val, Val, Val, Val); (Val, Val, Val, Val, Val);
    (Val, Val, Val, Val, Val, Val); (Val, Val, Val, Val, Val, Val, Val);
    (Val, Val, Val, Val, Val, Val, Val, Val); }
impl UserVal for (Val,) {
    fn user(self) -> Val {
        self.0
    }
}

/// Turns the two components of a pair into `Val`s.
struct PairErase<Q>(Q);
struct PairIter<'p, Q: Parser + 'p>(Q::Iter<'p>);
impl<Q, S, T> Parser for PairErase<Q>
where
    Q: Parser<RawOutput = (S, T)>,
    S: ToVal,
    T: ToVal,
{
    type Output = (Val, Val);
    type RawOutput = (Val, Val);
    type Iter<'p>
        = PairIter<'p, Q>
    where
        Q: 'p;
    fn parse_iter<'p>(&'p self, ctx: &mut ParseContext<'p>, start: usize) -> Result<Self::Iter<'p>, Reported> {
        Ok(PairIter(self.0.parse_iter(ctx, start)?))
    }
}
impl<'p, Q, S, T> ParseIter<'p> for PairIter<'p, Q>
where
    Q: Parser<RawOutput = (S, T)>,
    S: ToVal,
    T: ToVal,
{
    type RawOutput = (Val, Val);
    fn match_end(&self) -> usize {
        self.0.match_end()
    }
    fn backtrack(&mut self, ctx: &mut ParseContext<'p>) -> Result<(), Reported> {
        self.0.backtrack(ctx)
    }
    fn convert(&self) -> (Val, Val) {
        let (a, b) = self.0.convert();
        (a.to_val(), b.to_val())
    }
}
