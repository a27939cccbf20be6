mod build;
mod dynobs;
mod val;
mod world;
mod threads;

use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex, mpsc};
use std::time::Duration;

use serde_json::{Value as J, json};
use world::*;

struct Progress { line: J, steps: Vec<J>, log: Option<Arc<W>> }

fn take_log(w: &Arc<W>) -> Vec<Vec<i64>> { std::mem::take(&mut *lk(&w.log)) }

/// runs one trace; `out` is shared with the watchdog
fn run(trace: &J, out: &Mutex<Progress>) {
    let cfg = &trace["cfg"];
    let want_stored = cfg["stored"].as_bool().unwrap_or(false);
    let w = W::new(cfg);
    lk(out).log = Some(w.clone());
    for a in trace["acts"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| w.act(a)));
        if let Err(e) = &r {
            if std::env::var("RXH_DEBUG").is_ok() {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                eprintln!("panic: {m}");
            }
            w.push(vec![EV_PANIC]);
        }
        let panicked = r.is_err();
        let probes = catch_unwind(AssertUnwindSafe(|| (w.closed_flags(), w.subject_flags(), w.sched_empty(), w.connected())));
        let (cl, su, se, cn) = match probes { Ok(p) => p, Err(_) => { w.push(vec![EV_PANIC]); (vec![], vec![], 0, vec![]) } };
        let mut step = json!({"ev": take_log(&w), "cl": cl, "su": su, "se": se});
        if !cn.is_empty() { step["cn"] = json!(cn); }
        if want_stored { step["st"] = json!(w.stored()); }
        lk(out).steps.push(step);
        if panicked { break; }
    }
    // Dropping everything must not panic either (debug assertions of the library).
    lk(out).log = None;
    if cfg["fin"].as_bool().unwrap_or(true) {
        let fin = catch_unwind(AssertUnwindSafe(|| {
            let subs = std::mem::take(&mut *lk(&w.subs));
            drop(subs);
            let e = take_log(&w);
            let x = std::mem::take(&mut *lk(&w.shared_subs)); drop(x);
            let x = std::mem::take(&mut *lk(&w.shared_dests)); drop(x);
            e
        }));
        match fin {
            Ok(e) => { let mut o = lk(out); o.steps.push(json!({"ev": e, "fin": 1})); }
            Err(_) => { let mut o = lk(out); o.steps.push(json!({"ev": [[EV_PANIC]], "fin": 1})); }
        }
    }
    let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("run");
    if mode == "threads" { threads::main(); return; }
    let timeout = Duration::from_millis(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(4000));
    if mode != "run" { panic!("mode"); }
    let stdin = std::io::stdin();
    let mut lines = stdin.lock().lines();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut hangs = 0;
    'outer: loop {
        // one worker until it hangs
        let (tx, rx) = mpsc::channel::<(J, Arc<Mutex<Progress>>)>();
        let (dtx, drx) = mpsc::channel::<()>();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            for (t, p) in rx { run(&t, &p); if dtx.send(()).is_err() { return; } }
        }).unwrap();
        loop {
            let Some(Ok(line)) = lines.next() else { break 'outer };
            if line.trim().is_empty() { continue }
            let t: J = serde_json::from_str(&line).unwrap();
            let p = Arc::new(Mutex::new(Progress { line: t.clone(), steps: vec![], log: None }));
            let id = t["id"].clone();
            tx.send((t, p.clone())).unwrap();
            let hung = match drx.recv_timeout(timeout) {
                Ok(()) => false,
                Err(mpsc::RecvTimeoutError::Timeout) => true,
                Err(_) => true,
            };
            let mut g = lk(&p);
            let _ = &g.line;
            if hung {
                let ev = match g.log.take().map(|w| w.log.try_lock().map(|mut l| std::mem::take(&mut *l)).unwrap_or_default()) { Some(mut l) => { l.push(vec![EV_DEADLOCK]); l } None => vec![vec![EV_DEADLOCK]] };
                g.steps.push(json!({"ev": ev}));
            }
            let o = json!({"id": id, "steps": g.steps});
            writeln!(out, "{o}").unwrap();
            out.flush().unwrap();
            if hung { hangs += 1; if hangs >= 2 { break 'outer } break; }
        }
    }
    out.flush().unwrap();
    std::process::exit(0);
}
