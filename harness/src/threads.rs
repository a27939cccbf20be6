//! Runs small programs of several threads against one subject, again and again, and collects the outcomes.
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use rx_core::prelude::*;
use rx_core_common::*;
use serde_json::{Value as J, json};

type Log = Arc<Mutex<Vec<J>>>;
type Pub = PublishSubject<i64, i64>;
type React = Arc<Vec<(usize, i64, i64)>>;

fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }

fn observer<F: 'static + FnMut(i64) + Send + Sync>(log: &Log, mut also: F) -> DynFnObserver<i64, i64> {
    let (a, b, c) = (log.clone(), log.clone(), log.clone());
    DynFnObserver::default()
        .with_next(move |v: i64| { lk(&a).push(json!(["next", v])); also(v) })
        .with_error(move |e: i64| lk(&b).push(json!(["err", e])))
        .with_complete(move || lk(&c).push(json!(["comp"])))
}

#[derive(Clone)]
enum Target { Subject(Pub), Shared(SharedSubscriber<<DynFnObserver<i64, i64> as UpgradeableObserver>::Upgraded>), Subscription(SharedSubscription) }

impl Target {
    fn next(&mut self, v: i64) { match self { Target::Subject(s) => s.next(v), Target::Shared(s) => s.next(v), _ => {} } }
    fn error(&mut self, v: i64) { match self { Target::Subject(s) => s.error(v), Target::Shared(s) => s.error(v), _ => {} } }
    fn complete(&mut self) { match self { Target::Subject(s) => s.complete(), Target::Shared(s) => s.complete(), _ => {} } }
    fn unsubscribe(&mut self) { match self { Target::Subject(s) => s.unsubscribe(), Target::Shared(s) => s.unsubscribe(), Target::Subscription(s) => s.unsubscribe() } }
}

struct Round { target: Target, logs: Vec<Log>, handles: Vec<Mutex<Option<MulticastHandle>>>, react: React }
type MulticastHandle = <Pub as Observable>::Subscription<<DynFnObserver<i64, i64> as UpgradeableObserver>::Upgraded>;

fn attach(r: &Round, k: usize) -> MulticastHandle {
    let Target::Subject(s) = &r.target else { unreachable!() };
    let (mut s, mut again, react) = (s.clone(), s.clone(), r.react.clone());
    let mut h = s.subscribe(observer(&r.logs[k], move |v| {
        for (rk, rv, w) in react.iter() { if *rk == k && *rv == v { again.next(*w) } }
    }));
    let log = r.logs[k].clone();
    h.add_fn(move || lk(&log).push(json!(["u"])));
    h
}

fn round(p: &J, kind: &str, n: usize, pre: usize, react: &React) -> Arc<Round> {
    let logs: Vec<Log> = (0..=n).map(|_| Log::default()).collect();
    let _ = p;
    let target = match kind {
        "subject" => Target::Subject(Pub::default()),
        "shared" => {
            let cell: Arc<Mutex<Option<Target>>> = Arc::default();
            let (c2, re) = (cell.clone(), react.clone());
            let d = observer(&logs[1], move |v| {
                for (_, rv, w) in re.iter() { if *rv == v { let t = lk(&c2).clone(); if let Some(mut t) = t { t.next(*w) } } }
            });
            let mut s = SharedSubscriber::new(d.upgrade());
            let l = logs[1].clone();
            s.add_fn(move || lk(&l).push(json!(["u"])));
            if !react.is_empty() { *lk(&cell) = Some(Target::Shared(s.clone())); }
            Target::Shared(s)
        }
        _ => {
            let mut s = SharedSubscription::default();
            let l = logs[1].clone();
            s.add_fn(move || lk(&l).push(json!(["u"])));
            Target::Subscription(s)
        }
    };
    let r = Arc::new(Round { target, logs, handles: (0..=n).map(|_| Mutex::new(None)).collect(), react: react.clone() });
    if kind == "subject" { for k in 1..=pre { let h = attach(&r, k); *lk(&r.handles[k]) = Some(h); } }
    r
}

fn act(r: &Round, t: &mut Target, o: &J) {
    let x = o[1].as_i64().unwrap_or(0);
    match o[0].as_str().unwrap() {
        "next" => t.next(x),
        "err" => t.error(x),
        "comp" => t.complete(),
        "all" => t.unsubscribe(),
        "td" => {
            let l = r.logs[1].clone();
            let f = move || lk(&l).push(json!(["td", x]));
            match t { Target::Shared(s) => s.add_fn(f), Target::Subscription(s) => s.add_fn(f), _ => unreachable!() }
        }
        "sub" => { let h = attach(r, x as usize); *lk(&r.handles[x as usize]) = Some(h); }
        "unsub" => { let h = lk(&r.handles[x as usize]).take(); if let Some(mut h) = h { h.unsubscribe(); *lk(&r.handles[x as usize]) = Some(h); } }
        o => panic!("{o}"),
    }
}

fn main_one(p: &J) -> J {
    let kind = p["kind"].as_str().unwrap().to_string();
    let (n, pre) = (p["n"].as_u64().unwrap() as usize, p["pre"].as_u64().unwrap() as usize);
    let rounds = p["rounds"].as_u64().unwrap() as usize;
    let react: React = Arc::new(p["react"].as_array().unwrap().iter().map(|r| (r[0].as_u64().unwrap() as usize, r[1].as_i64().unwrap(), r[2].as_i64().unwrap())).collect());
    let thr: Vec<Vec<J>> = p["thr"].as_array().unwrap().iter().map(|t| t.as_array().unwrap().clone()).collect();
    let m = thr.len();
    let slot: Arc<Mutex<Option<Arc<Round>>>> = Arc::default();
    let (go, done, stop) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let panics = Arc::new(AtomicUsize::new(0));
    let workers: Vec<_> = thr.iter().enumerate().map(|(i, ops)| {
        let (ops, slot, go, done, stop, panics) = (ops.clone(), slot.clone(), go.clone(), done.clone(), stop.clone(), panics.clone());
        std::thread::spawn(move || {
            let mut seed = 0x9E3779B97F4A7C15u64.wrapping_mul(i as u64 + 1);
            let mut at = 0;
            loop {
                while go.load(SeqCst) == at { if stop.load(SeqCst) == 1 { return } std::hint::spin_loop() }
                at += 1;
                let r = lk(&slot).clone().unwrap();
                let mut t = r.target.clone();
                done.fetch_add(1, SeqCst);
                while done.load(SeqCst) % (2 * m) < m && done.load(SeqCst) / (2 * m) < at { std::hint::spin_loop() }
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| for o in &ops {
                    seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
                    for _ in 0..(seed >> 3) % [1, 4, 30, 120][(seed >> 40) as usize % 4] { std::hint::spin_loop() }
                    act(&r, &mut t, o);
                }));
                if res.is_err() { panics.fetch_add(1, SeqCst); }
                drop(t);
                drop(r);
                done.fetch_add(1, SeqCst);
            }
        })
    }).collect();
    let mut outs: HashMap<String, usize> = HashMap::new();
    let start = std::time::Instant::now();
    let limit = std::time::Duration::from_millis(p["ms"].as_u64().unwrap_or(60000));
    let mut made = 0;
    let mut hung = false;
    for i in 0..rounds {
        let r = round(p, &kind, n, pre, &react);
        *lk(&slot) = Some(r.clone());
        let seen = std::time::Instant::now();
        go.store(i + 1, SeqCst);
        let mut spins = 0u64;
        while done.load(SeqCst) < (i + 1) * 2 * m {
            std::hint::spin_loop();
            spins += 1;
            if spins % 4096 == 0 { std::thread::yield_now(); if seen.elapsed().as_secs() > 40 { hung = true; break } }
        }
        if hung { break }
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            // looked at before anything else is done: nobody will come to finish what was left
            let logs: Vec<J> = r.logs[1..].iter().map(|l| J::Array(lk(l).clone())).collect();
            let st: Vec<&str> = (1..=n).map(|k| match &r.target {
                Target::Subject(_) => match &*lk(&r.handles[k]) { Some(h) => if h.is_closed() { "closed" } else { "open" }, None => "new" },
                Target::Shared(s) => if s.is_closed() { "closed" } else { "open" },
                Target::Subscription(s) => if s.is_closed() { "closed" } else { "open" },
            }).collect();
            json!({"st": st, "log": logs}).to_string()
        }));
        let key = match out { Ok(o) if panics.load(SeqCst) == 0 => o, _ => "panic".to_string() };
        *outs.entry(key).or_default() += 1;
        *lk(&slot) = None;
        made += 1;
        if let Ok(r) = Arc::try_unwrap(r) { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(r))); }
        if panics.load(SeqCst) > 0 || (i % 256 == 0 && start.elapsed() > limit) { break }
    }
    if hung { outs.insert("hang".into(), 1); } else {
        stop.store(1, SeqCst);
        for w in workers { let _ = w.join(); }
    }
    json!({"id": p["id"], "rounds": made, "out": outs.into_iter().map(|(k, c)| json!([k, c])).collect::<Vec<_>>()})
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let p: J = serde_json::from_str(&line.unwrap()).unwrap();
        let o = main_one(&p);
        println!("{o}");
        let _ = std::io::stdout().flush();
        if o["out"].as_array().unwrap().iter().any(|x| x[0] == "hang") { std::process::exit(3) }
    }
}
