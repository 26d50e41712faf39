//! Runs every case of an ndjson file: run CASES OUT SKIP LIMIT. A case that does
//! not come back within the time limit is reported as a hang and ends the
//! process (the driver restarts it after that case).
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn drive(run_case: impl Fn(&J) -> J + Send + 'static) {
    let args: Vec<String> = std::env::args().collect();
    let (cases, out, skip) = (&args[2], &args[3], args[4].parse::<usize>().unwrap());
    let limit = Duration::from_secs(args.get(5).and_then(|s| s.parse().ok()).unwrap_or(10));
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::io::BufReader::new(std::fs::File::open(cases).unwrap());
    let outf = Arc::new(Mutex::new(
        std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap(),
    ));
    let epoch = Instant::now();
    let started = Arc::new(AtomicU64::new(u64::MAX));
    {
        let (started, outf) = (started.clone(), outf.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = started.load(Ordering::SeqCst);
            if s != u64::MAX && epoch.elapsed() > Duration::from_millis(s) + limit {
                let mut f = outf.lock().unwrap();
                if started.load(Ordering::SeqCst) == s {
                    writeln!(f, "{}", json!({"kind": "hang"})).unwrap();
                    f.flush().unwrap();
                    std::process::exit(3);
                }
            }
        });
    }
    let worker = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            for line in file.lines().skip(skip) {
                let c: J = serde_json::from_str(&line.unwrap()).unwrap();
                started.store(epoch.elapsed().as_millis() as u64, Ordering::SeqCst);
                let r = run_case(&c);
                let mut f = outf.lock().unwrap();
                started.store(u64::MAX, Ordering::SeqCst);
                writeln!(f, "{r}").unwrap();
            }
        })
        .unwrap();
    worker.join().unwrap();
}
