//! Values, in the representation of spec/Values.tla.
use num_bigint::Sign;
pub use num_bigint::{BigInt, BigUint};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Val {
    pub t: &'static str,
    pub n: Vec<i64>,
    pub s: Vec<Val>,
}

pub fn v(t: &'static str, n: Vec<i64>, s: Vec<Val>) -> Val {
    Val { t, n, s }
}

fn tag_code(t: &str) -> i64 {
    match t {
        "u" => 1, "c" => 2, "b" => 3, "n" => 4, "f" => 5, "s" => 6, "v" => 7, "t" => 8,
        "S" => 9, "N" => 10, "m" => 11, "set" => 12, "map" => 13, "q" => 14, _ => 99,
    }
}

impl Val {
    pub fn code(&self, out: &mut Vec<i64>) {
        out.push(tag_code(self.t));
        out.push(self.n.len() as i64);
        out.extend(&self.n);
        out.push(self.s.len() as i64);
        for x in &self.s {
            x.code(out);
        }
    }
    pub fn coded(&self) -> Vec<i64> {
        let mut c = vec![];
        self.code(&mut c);
        c
    }
    pub fn json(&self) -> J {
        json!({"t": self.t, "n": self.n, "s": self.s.iter().map(|x| x.json()).collect::<Vec<_>>()})
    }
    /// The i-th (1-based) of n values held in nested pairs.
    pub fn component(&self, n: usize, i: usize) -> Val {
        if n == 1 {
            self.clone()
        } else if i == 1 {
            self.s[0].clone()
        } else {
            self.s[1].component(n - 1, i - 1)
        }
    }
}

pub fn sorted(mut vs: Vec<Val>) -> Vec<Val> {
    vs.sort_by_key(|x| x.coded());
    vs
}

/// Digits of the magnitude, in the given radix, most significant first.
pub fn int_val(neg: bool, digits: &str) -> Val {
    let mut n = vec![neg as i64];
    n.extend(digits.chars().map(|c| c.to_digit(16).unwrap() as i64));
    v("n", n, vec![])
}

pub trait ToVal {
    fn to_val(self) -> Val;
}

impl ToVal for Val {
    fn to_val(self) -> Val {
        self
    }
}
impl ToVal for () {
    fn to_val(self) -> Val {
        v("u", vec![], vec![])
    }
}
/// Of the float with these bits: `frac` bits of fraction, then the exponent.
fn float(bits: u64, frac: u32, exps: u32) -> Val {
    let e = (bits >> frac) & ((1 << exps) - 1);
    let sign = (bits >> (frac + exps)) as i64;
    let f = bits & ((1 << frac) - 1);
    let qmin = 2 - (1i64 << (exps - 1)) - frac as i64;
    let n = if e == (1 << exps) - 1 {
        if f == 0 { vec![1, sign, 0, 0, 0] } else { vec![2, 0, 0, 0, 0] }
    } else {
        let m = if e == 0 { f } else { f | (1 << frac) };
        vec![0, sign, (m >> 24) as i64, (m & 0xffffff) as i64, qmin + (e as i64 - 1).max(0)]
    };
    v("f", n, vec![])
}
impl ToVal for f32 {
    fn to_val(self) -> Val {
        float(self.to_bits() as u64, 23, 8)
    }
}
impl ToVal for f64 {
    fn to_val(self) -> Val {
        float(self.to_bits(), 52, 11)
    }
}
impl ToVal for char {
    fn to_val(self) -> Val {
        v("c", vec![self as i64], vec![])
    }
}
impl ToVal for bool {
    fn to_val(self) -> Val {
        v("b", vec![self as i64], vec![])
    }
}
impl ToVal for String {
    fn to_val(self) -> Val {
        v("s", self.chars().map(|c| c as i64).collect(), vec![])
    }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn to_val(self) -> Val {
        v("v", vec![], self.into_iter().map(|x| x.to_val()).collect())
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn to_val(self) -> Val {
        match self {
            Some(x) => v("S", vec![], vec![x.to_val()]),
            None => v("N", vec![], vec![]),
        }
    }
}
impl<T: ToVal> ToVal for HashSet<T> {
    fn to_val(self) -> Val {
        v("set", vec![], sorted(self.into_iter().map(|x| x.to_val()).collect()))
    }
}
impl<T: ToVal> ToVal for BTreeSet<T> {
    fn to_val(self) -> Val {
        v("set", vec![], sorted(self.into_iter().map(|x| x.to_val()).collect()))
    }
}
impl<K: ToVal, T: ToVal> ToVal for HashMap<K, T> {
    fn to_val(self) -> Val {
        v("map", vec![], sorted(self.into_iter().map(|x| x.to_val()).collect()))
    }
}
impl<K: ToVal, T: ToVal> ToVal for BTreeMap<K, T> {
    fn to_val(self) -> Val {
        v("map", vec![], sorted(self.into_iter().map(|x| x.to_val()).collect()))
    }
}
impl<T: ToVal> ToVal for VecDeque<T> {
    fn to_val(self) -> Val {
        v("q", vec![], self.into_iter().map(|x| x.to_val()).collect())
    }
}

macro_rules! tuples {
    ( $( ( $($x:ident)* ) )* ) => { $(
        #[allow(non_snake_case)]
        impl< $($x: ToVal),* > ToVal for ( $($x,)* ) {
            fn to_val(self) -> Val {
                let ( $($x,)* ) = self;
                v("t", vec![], vec![ $( $x.to_val() ),* ])
            }
        }
    )* };
}
tuples! { (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H) }

/// Integers, rendered in a radix.
pub trait Radix: Sized {
    fn radix(self, r: u32) -> Val;
}
macro_rules! ints {
    ( $( $t:ident )* ) => { $(
        impl Radix for $t {
            fn radix(self, r: u32) -> Val {
                #[allow(unused_comparisons)]
                let neg = self < 0;
                #[allow(unused_comparisons)]
                let mag: u128 = if neg { (self as i128).unsigned_abs() } else { self as u128 };
                let s = match r {
                    2 => format!("{mag:b}"),
                    16 => format!("{mag:x}"),
                    _ => format!("{mag}"),
                };
                int_val(neg, &s)
            }
        }
        impl ToVal for $t {
            fn to_val(self) -> Val { self.radix(10) }
        }
    )* };
}
ints! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
impl Radix for BigInt {
    fn radix(self, r: u32) -> Val {
        let (sign, mag) = self.into_parts();
        int_val(sign == Sign::Minus, &mag.to_str_radix(r))
    }
}
impl Radix for BigUint {
    fn radix(self, r: u32) -> Val {
        int_val(false, &self.to_str_radix(r))
    }
}
impl ToVal for BigInt {
    fn to_val(self) -> Val {
        self.radix(10)
    }
}
impl ToVal for BigUint {
    fn to_val(self) -> Val {
        self.radix(10)
    }
}

pub fn text(cps: &[i64]) -> String {
    cps.iter().map(|c| char::from_u32(*c as u32).expect("code point")).collect()
}
