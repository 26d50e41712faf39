//! vh run CASES OUT SKIP LIMIT
use serde_json::{json, Value as J};
use vh::dynp::{grammar, Builder};
use vh::report::{observe, observe_all, Opts};

#[derive(Debug)]
struct CallerError(aoc_parse::ParseError);
impl From<aoc_parse::ParseError> for CallerError {
    fn from(e: aoc_parse::ParseError) -> Self {
        CallerError(e)
    }
}

/// On a thread with a stack of the given size, if the case asks for one.
fn run_case(c: &J) -> J {
    match c["stack"].as_u64() {
        None => run_here(c),
        Some(k) => std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(k as usize)
                .spawn_scoped(s, || run_here(c))
                .unwrap()
                .join()
                .unwrap()
        }),
    }
}

fn run_here(c: &J) -> J {
    if c["mode"] == "history" {
        return vh::history::carry_out(c);
    }
    let g = grammar(&c["g"]);
    let cps: Vec<i64> = c["src"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let src = vh::val::text(&cps);
    let o = Opts {
        trace: c["trace"].as_bool().unwrap_or(false),
        fuel: c["fuel"].as_u64().unwrap_or(20_000_000),
    };
    let built = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Builder::new(&g).build(1)));
    let p = match built {
        Ok(p) => p,
        Err(e) => return json!({"kind": "panic", "msg": format!("building the parser: {}", vh::report::panic_text(&*e))}),
    };
    match c["mode"].as_str().unwrap_or("parse") {
        "aoc" => {
            let effective = if src.ends_with('\n') { src.clone() } else { format!("{src}\n") };
            observe(&g, &effective, &o, || p.aoc_parse_val::<CallerError>(&src), |e| e.0)
        }
        "all" => {
            let byte = |name: &str| {
                let n = c[name].as_u64().unwrap() as usize;
                src.chars().take(n).map(char::len_utf8).sum::<usize>()
            };
            let k = c["k"].as_u64().unwrap() as usize;
            observe_all(&o, || p.drive(&src, byte("st"), byte("other"), k))
        }
        _ => observe(&g, &src, &o, || p.parse_val(&src), |e| e),
    }
}

fn main() {
    vh::driver::drive(run_case);
}
