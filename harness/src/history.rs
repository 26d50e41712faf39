//! Carries out histories of spec/History.tla on real parsers.
use crate::dynp::{grammar, lend, Any, Builder, GNode, HOOK, MATCH_HOOK};
use crate::report::{observe, on_desk, Opts};
use crate::val::text;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub struct Op {
    /// position in the history, from 0
    i: usize,
    o: String,
    h: usize,
    x: usize,
    y: usize,
    s: String,
    src: String,
}

struct Obj {
    g: Vec<GNode>,
    p: Box<Any>,
}

/// Whose turn it is; None when threads run freely.
type Turn = Option<Arc<(Mutex<usize>, Condvar)>>;

/// One thread's share of a history.
struct Actor {
    ops: Vec<Op>,
    at: usize,
    pool: Arc<Vec<Vec<GNode>>>,
    objs: HashMap<usize, Obj>,
    turn: Turn,
    out: Vec<J>,
}

fn shifted(g: &[GNode], by: usize) -> Vec<GNode> {
    g.iter()
        .map(|n| GNode { k: n.k.iter().map(|&k| if k == 0 { 0 } else { k + by }).collect(), ..n.clone() })
        .collect()
}
fn nd(op: &str, k: &[usize], a: &[i64], s: &str) -> GNode {
    GNode { op: op.into(), k: k.to_vec(), a: a.to_vec(), s: s.into() }
}

/// Around(sh, a, b) of spec/Objects.tla, and where the borrowed parsers are in it.
fn around(sh: &str, a: &[GNode], b: &[GNode]) -> (Vec<GNode>, Vec<usize>) {
    let n = a.len();
    let (head, two) = match sh {
        "pair" | "alt" => (vec![nd(sh, &[2, 3], &[], ""), nd("by", &[4], &[], ""), nd("by", &[4 + n], &[], "")], true),
        "star" => (vec![nd("star", &[2], &[], ""), nd("by", &[3], &[], "")], false),
        "lines" => (vec![nd("star", &[2], &[], "lines"), nd("line", &[3], &[], ""), nd("by", &[4], &[], "")], false),
        "map" => (vec![nd("map", &[2], &[800], ""), nd("by", &[3], &[], "")], false),
        "string" => (vec![nd("string", &[2], &[], ""), nd("by", &[3], &[], "")], false),
        "list" => (
            vec![
                nd("rs", &[2, 3], &[900], ""),
                nd("ref", &[3], &[900, 1], ""),
                nd("pair", &[4, 5], &[], ""),
                nd("by", &[9], &[], ""),
                nd("opt", &[6], &[], ""),
                nd("pair", &[7, 8], &[], ""),
                nd("lit", &[], &[44], ""),
                nd("ref", &[3], &[900, 1], ""),
            ],
            false,
        ),
        o => panic!("harness: shape {o}"),
    };
    let base = head.len();
    let mut g = head;
    g.extend(shifted(a, base));
    let mut at = vec![base + 1];
    if two {
        g.extend(shifted(b, base + n));
        at.push(base + n + 1);
    }
    (g, at)
}

impl Actor {
    fn wait(&self, i: usize) {
        if let Some(t) = &self.turn {
            let mut g = t.0.lock().unwrap();
            while *g < i {
                g = t.1.wait(g).unwrap();
            }
        }
    }
    fn done(&self, i: usize) {
        if let Some(t) = &self.turn {
            let mut g = t.0.lock().unwrap();
            *g = (*g).max(i + 1);
            t.1.notify_all();
        }
    }
    fn peek(&self) -> &str {
        self.ops.get(self.at).map_or("end", |o| &o.o)
    }
    /// Take the next operation if it is of this kind ("end" is implied at the
    /// end of the history).
    fn take(&mut self, kind: &str) {
        if self.at < self.ops.len() && self.ops[self.at].o == kind {
            let i = self.ops[self.at].i;
            self.at += 1;
            self.wait(i);
            self.done(i);
        }
    }
}

/// Operations up to the next "conv" or "end" of an enclosing parse.
/// SAFETY: `me` is valid, and no reference into *me is held by callers.
unsafe fn run(me: *mut Actor) {
    while (*me).at < (*me).ops.len() && !matches!((*me).peek(), "conv" | "end") {
        let op = (&(*me).ops)[(*me).at].clone();
        (*me).at += 1;
        (*me).wait(op.i);
        match op.o.as_str() {
            "build" => {
                let g = (&(*me).pool)[op.x - 1].clone();
                let p = Box::new(Builder::new(&g).build(1));
                (&mut (*me).objs).insert(op.h, Obj { g, p });
            }
            "wrap" => {
                let objs = &(*me).objs;
                let (a, b) = (&objs[&op.x], &objs[&op.y]);
                let (g, at) = around(&op.s, &a.g, &b.g);
                let mut bd = Builder::new(&g);
                for (k, o) in at.iter().zip([a, b]) {
                    bd.shared.insert(*k, lend(&*o.p));
                }
                let p = Box::new(bd.build(1));
                drop(bd);
                (&mut (*me).objs).insert(op.h, Obj { g, p });
            }
            "move" => {
                let o = (&mut (*me).objs).remove(&op.h).unwrap();
                let p = Box::new(o.p.moved());
                (&mut (*me).objs).insert(op.h, Obj { g: o.g, p });
            }
            "drop" => {
                (&mut (*me).objs).remove(&op.h);
            }
            "churn" => {
                for _ in 0..op.y {
                    drop(Builder::new(&(&(*me).pool)[op.x - 1]).build(1));
                }
            }
            "drill" | "spin" => {
                let obj: *const Obj = &(&(*me).objs)[&op.h];
                let other: *const Obj = if op.o == "spin" { &(&(*me).objs)[&op.x] } else { obj };
                let hooks = (MATCH_HOOK.with(|h| h.borrow_mut().take()), HOOK.with(|h| h.borrow_mut().take()));
                let o = Opts { trace: false, fuel: 2_000_000 };
                for k in 0..op.y {
                    let obj = if k % 2 == 0 { obj } else { other };
                    on_desk(&op.src, |s| observe(&(*obj).g, s, &o, || (*obj).p.parse_val(s), |e| e));
                }
                MATCH_HOOK.with(|h| *h.borrow_mut() = hooks.0);
                HOOK.with(|h| *h.borrow_mut() = hooks.1);
            }
            "begin" => {
                parse(me, &op);
                continue;
            }
            o => panic!("harness: operation {o}"),
        }
        (*me).done(op.i);
    }
}

unsafe fn parse(me: *mut Actor, op: &Op) {
    let obj: *const Obj = &(&(*me).objs)[&op.h];
    let g = (*obj).g.clone();
    let p: *const Any = &*(*obj).p;
    let i = op.i;
    let phase: std::rc::Rc<std::cell::Cell<u8>> = Default::default();
    // while it matches
    let ph = phase.clone();
    let mh: Box<dyn FnOnce()> = Box::new(move || {
        ph.set(1);
        (*me).done(i);
        run(me);
    });
    // while it converts
    let ph = phase.clone();
    let ch: Box<dyn FnOnce(i64)> = Box::new(move |_| {
        if ph.get() == 1 && (*me).peek() == "conv" {
            ph.set(2);
            (*me).take("conv");
            run(me);
        }
    });
    let saved = (MATCH_HOOK.with(|h| h.borrow_mut().replace(mh)), HOOK.with(|h| h.borrow_mut().replace(ch)));
    let o = Opts { trace: false, fuel: 2_000_000 };
    let res = on_desk(&op.src, |s| observe(&g, s, &o, || (*p).parse_val(s), |e| e));
    MATCH_HOOK.with(|h| *h.borrow_mut() = saved.0);
    HOOK.with(|h| *h.borrow_mut() = saved.1);
    // what the parse gave no occasion for
    if phase.get() == 0 {
        (*me).done(i);
        run(me);
    }
    if phase.get() < 2 {
        (*me).take("conv");
        run(me);
    }
    (*me).take("end");
    (&mut (*me).out).push(json!({"i": i + 1, "res": res}));
}

pub fn carry_out(c: &J) -> J {
    let pool = Arc::new(c["pool"].as_array().unwrap().iter().map(grammar).collect::<Vec<_>>());
    let mut shares: HashMap<u64, Vec<Op>> = HashMap::new();
    for (i, o) in c["hist"].as_array().unwrap().iter().enumerate() {
        let n = |k: &str| o[k].as_u64().unwrap() as usize;
        let cps: Vec<i64> = o["src"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        shares.entry(o["t"].as_u64().unwrap()).or_default().push(Op {
            i,
            o: o["o"].as_str().unwrap().into(),
            h: n("h"),
            x: n("x"),
            y: n("y"),
            s: o["s"].as_str().unwrap().into(),
            src: text(&cps),
        });
    }
    let turn: Turn = (c["sched"] == "turns").then(|| Arc::new((Mutex::new(0), Condvar::new())));
    let hs: Vec<_> = shares
        .into_values()
        .map(|ops| {
            let (pool, turn) = (pool.clone(), turn.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut me = Actor { ops, at: 0, pool, objs: HashMap::new(), turn, out: vec![] };
                    unsafe { run(&mut me) };
                    // whatever borrows goes before what it borrows from
                    let mut hs: Vec<usize> = me.objs.keys().copied().collect();
                    hs.sort();
                    for h in hs.into_iter().rev() {
                        me.objs.remove(&h);
                    }
                    me.out
                })
                .unwrap()
        })
        .collect();
    let mut runs = vec![];
    for h in hs {
        match h.join() {
            Ok(out) => runs.extend(out),
            Err(e) => return json!({"kind": "panic", "msg": crate::report::panic_text(&*e)}),
        }
    }
    runs.sort_by_key(|r| r["i"].as_u64());
    json!({"kind": "history", "runs": runs})
}
