//! The world a trace runs in: subjects, observables, subscriptions, scheduler
//! and an event log. Actions are small JSON arrays.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard, Weak, atomic::{AtomicBool, AtomicI64, Ordering}};
use std::time::Duration;

use rx_core::prelude::*;
use rx_core_common::{WorkCancellationId, WorkInvokeId, WorkResult};
use rx_core_macro_observer_derive::RxObserver;
use rx_core_macro_subscriber_derive::RxSubscriber;
use rx_core_scheduler_ticking::{Tick, TickingScheduler};
use rx_core_testing::prelude::*;
use serde_json::Value as J;

use crate::build::{self, Conn};
use crate::dynobs::DynObs;
use crate::val::*;

pub type Sched = TickingScheduler<MockContextProvider>;

/// event codes (first element of an event)
pub const EV_NEXT: i64 = 1;
pub const EV_ERROR: i64 = 2;
pub const EV_COMPLETE: i64 = 3;
pub const EV_CLOSED: i64 = 4; // the destination's own teardown ran
pub const EV_TEARDOWN: i64 = 5; // teardown or finalize callback `id`
pub const EV_SUBSCRIBED: i64 = 6; // a source observable was subscribed
pub const EV_CALL: i64 = 7; // a user callback (tap, mapper, ...) ran
pub const EV_PANIC: i64 = 8;
pub const EV_DEADLOCK: i64 = 9;
pub const EV_WORK: i64 = 10; // a work ran
pub const EV_AFTER: i64 = 100; // added to 1..3: notification after the destination closed (raw destinations)

pub fn lk<T>(m: &Mutex<T>) -> MutexGuard<'_, T> { m.lock().unwrap_or_else(|p| p.into_inner()) }

#[derive(Clone)]
pub enum Subj {
    Pub(PublishSubject<V, V>),
    Beh(BehaviorSubject<V, V>),
    Rep1(ReplaySubject<1, V, V>),
    Rep2(ReplaySubject<2, V, V>),
    Rep3(ReplaySubject<3, V, V>),
    Async(AsyncSubject<V, V>),
    AsyncSum(AsyncSubject<V, V, fn(V, V) -> V>),
    Prov(ProvenanceSubject<i64, V, V>),
}

macro_rules! each {
    ($s:expr, $x:ident => $e:expr, $p:ident => $pe:expr) => {
        match $s {
            Subj::Pub($x) => $e, Subj::Beh($x) => $e, Subj::Rep1($x) => $e, Subj::Rep2($x) => $e,
            Subj::Rep3($x) => $e, Subj::Async($x) => $e, Subj::AsyncSum($x) => $e, Subj::Prov($p) => $pe,
        }
    };
}

fn sum(a: V, b: V) -> V { a.add(b.last()) }

impl Subj {
    pub fn new(j: &J) -> Subj {
        match j[0].as_str().unwrap() {
            "pub" => Subj::Pub(PublishSubject::default()),
            "beh" => Subj::Beh(BehaviorSubject::new(V::from_json(&j[1]))),
            "rep" => match j[1].as_i64().unwrap() {
                1 => Subj::Rep1(ReplaySubject::default()),
                2 => Subj::Rep2(ReplaySubject::default()),
                _ => Subj::Rep3(ReplaySubject::default()),
            },
            "async" => Subj::Async(AsyncSubject::default()),
            "asum" => Subj::AsyncSum(AsyncSubject::new(sum as fn(V, V) -> V)),
            "prov" => Subj::Prov(ProvenanceSubject::new(V::from_json(&j[1]), j[2].as_i64().unwrap())),
            x => panic!("subject {x}"),
        }
    }
    pub fn next(&mut self, v: V, prov: i64) { each!(self, s => s.next(v), p => p.next((v, prov))) }
    pub fn error(&mut self, v: V) { each!(self, s => s.error(v), p => p.error(v)) }
    pub fn complete(&mut self) { each!(self, s => s.complete(), p => p.complete()) }
    pub fn unsubscribe(&mut self) { each!(self, s => s.unsubscribe(), p => p.unsubscribe()) }
    pub fn is_closed(&self) -> bool { each!(self, s => s.is_closed(), p => p.is_closed()) }
    pub fn observe(&self, how: i64, prov: i64) -> DynObs {
        each!(self.clone(), s => DynObs::cloning(s), p => match how {
            1 => DynObs::cloning(p.only_by_provenance(prov)),
            2 => DynObs::cloning(p.replay_then_by_provenance(prov)),
            3 => DynObs::cloning(p.all()),
            _ => DynObs::new(p.map(|(v, q)| V::pair(&v, &V::int(q)))),
        })
    }
    /// the currently stored values, where the subject exposes them
    pub fn stored(&self) -> Vec<V> {
        match self {
            Subj::Pub(_) => vec![],
            Subj::Beh(s) => vec![s.value()],
            Subj::Rep1(s) => s.values(), Subj::Rep2(s) => s.values(), Subj::Rep3(s) => s.values(),
            Subj::Async(s) => s.value().into_iter().collect(),
            Subj::AsyncSum(s) => s.value().into_iter().collect(),
            Subj::Prov(s) => { let (v, p) = s.value(); vec![V::pair(&v, &V::int(p))] }
        }
    }
}

pub struct Reaction { pub on: String, pub at: i64, pub acts: Vec<J>, pub fired: bool }

pub struct W {
    pub log: Mutex<Vec<Vec<i64>>>,
    pub exec: Mutex<MockExecutor>,
    pub sched: SchedulerHandle<Sched>,
    pub subjects: Mutex<Vec<Subj>>,
    pub obs: Mutex<Vec<DynObs>>,
    pub conns: Mutex<Vec<Box<dyn Conn>>>,
    pub subs: Mutex<BTreeMap<i64, Option<Box<dyn SubscriptionWithTeardown + Send + Sync>>>>,
    pub reactions: Mutex<BTreeMap<i64, Vec<Reaction>>>,
    pub cancel_ids: Mutex<BTreeMap<i64, WorkCancellationId>>,
    pub invoke_ids: Mutex<BTreeMap<i64, WorkInvokeId>>,
    pub raw: AtomicBool,
    pub has_sched: AtomicBool,
    pub shared_subs: Mutex<BTreeMap<i64, SharedSubscription>>,
    pub shared_dests: Mutex<BTreeMap<i64, SharedSubscriber<BoxedSubscriber<V, V>>>>,
    pub next_auto: AtomicI64,
    pub seqc: Mutex<BTreeMap<i64, usize>>,
}

pub struct Dest { id: i64, w: Weak<W>, n: i64, closed: Arc<AtomicBool> }

impl Dest {
    fn ev(&mut self, code: i64, v: &V, on: &str) {
        let Some(w) = self.w.upgrade() else { return };
        let mut e = vec![code + if self.closed.load(Ordering::SeqCst) { EV_AFTER } else { 0 }, self.id];
        e.extend(v.0.iter().copied());
        lk(&w.log).push(e);
        if on == "n" { self.n += 1; }
        w.react(self.id, on, self.n);
    }
}

#[derive(RxObserver)]
#[rx_in(V)]
#[rx_in_error(V)]
pub struct Obs { d: Dest }
impl RxObserver for Obs {
    fn next(&mut self, v: V) { self.d.ev(EV_NEXT, &v, "n") }
    fn error(&mut self, v: V) { self.d.ev(EV_ERROR, &v, "e") }
    fn complete(&mut self) { self.d.ev(EV_COMPLETE, &V(vec![]), "c") }
}

/// A destination without the closed guard of the library's observer wrapper.
#[derive(RxSubscriber)]
#[rx_in(V)]
#[rx_in_error(V)]
pub struct Raw {
    #[teardown]
    teardown: SubscriptionData,
    d: Dest,
}
impl RxObserver for Raw {
    fn next(&mut self, v: V) { self.d.ev(EV_NEXT, &v, "n") }
    fn error(&mut self, v: V) { self.d.ev(EV_ERROR, &v, "e"); self.teardown.unsubscribe(); }
    fn complete(&mut self) { self.d.ev(EV_COMPLETE, &V(vec![]), "c"); self.teardown.unsubscribe(); }
}
impl SubscriptionLike for Raw {
    fn is_closed(&self) -> bool { self.teardown.is_closed() }
    fn unsubscribe(&mut self) { self.teardown.unsubscribe() }
}
impl TeardownCollection for Raw {
    fn add_teardown(&mut self, t: Teardown) { self.teardown.add_teardown(t) }
}

impl W {
    pub fn new(cfg: &J) -> Arc<W> {
        let exec = MockExecutor::default();
        let sched = exec.get_scheduler_handle();
        let w = Arc::new(W {
            log: Default::default(), exec: Mutex::new(exec), sched,
            subjects: Default::default(), obs: Default::default(), conns: Default::default(),
            subs: Default::default(), reactions: Default::default(),
            cancel_ids: Default::default(), invoke_ids: Default::default(),
            raw: AtomicBool::new(cfg["raw"].as_bool().unwrap_or(false)),
            has_sched: AtomicBool::new(false),
            shared_subs: Default::default(), shared_dests: Default::default(), next_auto: AtomicI64::new(900), seqc: Default::default(),
        });
        for s in cfg["subjects"].as_array().unwrap_or(&vec![]) {
            let s = Subj::new(s);
            lk(&w.subjects).push(s);
        }
        for c in cfg["conns"].as_array().unwrap_or(&vec![]) {
            let c = build::connectable(&w, c);
            lk(&w.conns).push(c);
        }
        for o in cfg["obs"].as_array().unwrap_or(&vec![]) {
            let o = build::observable(&w, o);
            lk(&w.obs).push(o);
        }
        if let Some(d) = cfg["react"].as_array() {
            // [[dest, "n", at, [acts...]], ...]
            for r in d {
                lk(&w.reactions).entry(r[0].as_i64().unwrap()).or_default().push(Reaction {
                    on: r[1].as_str().unwrap().into(), at: r[2].as_i64().unwrap(),
                    acts: r[3].as_array().unwrap().clone(), fired: false,
                });
            }
        }
        w
    }

    pub fn push(&self, e: Vec<i64>) { lk(&self.log).push(e) }

    pub fn react(self: &Arc<W>, id: i64, on: &str, n: i64) {
        let mut todo = vec![];
        if let Some(rs) = lk(&self.reactions).get_mut(&id) {
            for r in rs.iter_mut() {
                if !r.fired && r.on == on && (on != "n" || r.at == n) { r.fired = true; todo.extend(r.acts.clone()); }
            }
        }
        for a in todo { self.act(&a); }
    }

    pub fn teardown(self: &Arc<W>, code: i64, id: i64, closed: Option<Arc<AtomicBool>>) -> Teardown {
        let w = Arc::downgrade(self);
        Teardown::new(move || {
            if let Some(c) = closed { c.store(true, Ordering::SeqCst) }
            if let Some(w) = w.upgrade() {
                w.push(vec![code, id]);
                w.react(id, if code == EV_CLOSED { "x" } else { "t" }, 0);
            }
        })
    }

    pub fn dest(self: &Arc<W>, id: i64) -> BoxedSubscriber<V, V> {
        let closed = Arc::new(AtomicBool::new(false));
        let d = Dest { id, w: Arc::downgrade(self), n: 0, closed: closed.clone() };
        let t = self.teardown(EV_CLOSED, id, Some(closed));
        if self.raw.load(Ordering::SeqCst) {
            let mut r = Raw { d, teardown: SubscriptionData::default() };
            r.add_teardown(t);
            Box::new(r)
        } else {
            let mut o = ObserverSubscriber::new(Obs { d });
            o.add_teardown(t);
            Box::new(o)
        }
    }

    fn subj(&self, j: &J) -> Subj { lk(&self.subjects)[j.as_u64().unwrap() as usize].clone() }

    pub fn put_sub<S>(&self, id: i64, s: S) where S: 'static + SubscriptionWithTeardown + Send + Sync {
        let old = lk(&self.subs).insert(id, Some(Box::new(s)));
        drop(old);
    }
    fn with_sub<R>(&self, id: i64, f: impl FnOnce(&mut Box<dyn SubscriptionWithTeardown + Send + Sync>) -> R) -> Option<R> {
        let taken = { lk(&self.subs).get_mut(&id).and_then(|o| o.take()) };
        let mut s = taken?;
        let r = f(&mut s);
        if let Some(slot) = lk(&self.subs).get_mut(&id) { *slot = Some(s); }
        Some(r)
    }

    pub fn act(self: &Arc<W>, a: &J) {
        let i = |k: usize| a[k].as_i64().unwrap_or_else(|| panic!("int arg {k} of {a}"));
        match a[0].as_str().unwrap() {
            "next" => self.subj(&a[1]).next(V::from_json(&a[2]), a[3].as_i64().unwrap_or(0)),
            "err" => self.subj(&a[1]).error(V::from_json(&a[2])),
            "comp" => self.subj(&a[1]).complete(),
            "usub" => self.subj(&a[1]).unsubscribe(),
            // sub DEST OBS
            "sub" => {
                let id = i(1);
                let mut o = build::observable(self, &a[2]);
                let d = self.dest(id);
                let s = o.subscribe(d);
                self.put_sub(id, s);
            }
            // subscribe a subject directly to an observable: subj DEST OBS K
            "subj" => {
                let mut o = build::observable(self, &a[2]);
                let s = self.subj(&a[3]);
                match s {
                    Subj::Pub(s) => { let s = o.subscribe(s); self.put_sub(i(1), s); }
                    Subj::Beh(s) => { let s = o.subscribe(s); self.put_sub(i(1), s); }
                    Subj::Rep1(s) => { let s = o.subscribe(s); self.put_sub(i(1), s); }
                    Subj::Rep2(s) => { let s = o.subscribe(s); self.put_sub(i(1), s); }
                    Subj::Rep3(s) => { let s = o.subscribe(s); self.put_sub(i(1), s); }
                    Subj::Async(s) => { let s = o.subscribe(s); self.put_sub(i(1), s); }
                    Subj::AsyncSum(s) => { let s = o.subscribe(s); self.put_sub(i(1), s); }
                    Subj::Prov(_) => panic!("prov as destination"),
                }
            }
            "unsub" => { self.with_sub(i(1), |s| s.unsubscribe()); }
            "drop" => { let s = { lk(&self.subs).remove(&i(1)) }; drop(s); }
            "td" => { let t = self.teardown(EV_TEARDOWN, i(2), None); self.with_sub(i(1), move |s| s.add_teardown(t)); }
            "tick" => {
                lk(&self.exec).tick(Duration::from_millis(i(1) as u64));
            }
            "tickto" => {
                lk(&self.exec).tick_to(Tick::new(Duration::from_millis(i(1) as u64)));
            }
            "conn" => { self.conn(i(1), |c| { c.connect(); }); }
            "disc" => { self.conn(i(1), |c| { c.disconnect(); }); }
            "reset" => { self.conn(i(1), |c| c.reset()); }
            // scheduler
            "w" => self.schedule(a),
            "cancel" => {
                let id = lk(&self.cancel_ids).get(&i(1)).copied();
                if let Some(id) = id { self.sched.lock().cancel(id) }
            }
            "invoke" => {
                let id = lk(&self.invoke_ids).get(&i(1)).copied();
                if let Some(id) = id { self.sched.lock().invoke(id) }
            }
            "cinv" => {
                let id = lk(&self.invoke_ids).get(&i(1)).copied();
                if let Some(id) = id { self.sched.lock().cancel_invoked(id) }
            }
            // shared subscription handles: ss ID creates; ssadd ID TD; ssc ID NEW clone; ssu unsub; ssd drop; ssnest ID OTHER
            "ss" => { lk(&self.shared_subs).insert(i(1), SharedSubscription::default()); }
            "ssc" => { let s = lk(&self.shared_subs).get(&i(1)).cloned(); if let Some(s) = s { lk(&self.shared_subs).insert(i(2), s); } }
            "sst" => {
                let t = self.teardown(EV_TEARDOWN, i(2), None);
                let s = lk(&self.shared_subs).get(&i(1)).cloned();
                if let Some(mut s) = s { s.add_teardown(t) }
            }
            "ssu" => { let s = lk(&self.shared_subs).get(&i(1)).cloned(); if let Some(mut s) = s { s.unsubscribe() } }
            "ssd" => { let s = lk(&self.shared_subs).remove(&i(1)); drop(s); }
            "ssa" => { // add OTHER as teardown of ID
                let o = lk(&self.shared_subs).get(&i(2)).cloned();
                let s = lk(&self.shared_subs).get(&i(1)).cloned();
                if let (Some(mut s), Some(o)) = (s, o) { s.add(o) }
            }
            // shared destinations: sd ID: a shared subscriber over dest ID; handles cloned
            "sd" => { let d = self.dest(i(1)); lk(&self.shared_dests).insert(i(1), SharedSubscriber::new(d)); }
            "sdn" => { if let Some(mut s) = self.sd(i(1)) { s.next(V::from_json(&a[2])) } }
            "sde" => { if let Some(mut s) = self.sd(i(1)) { s.error(V::from_json(&a[2])) } }
            "sdc" => { if let Some(mut s) = self.sd(i(1)) { s.complete() } }
            "sdu" => { if let Some(mut s) = self.sd(i(1)) { s.unsubscribe() } }
            "sdt" => { let t = self.teardown(EV_TEARDOWN, i(2), None); if let Some(mut s) = self.sd(i(1)) { s.add_teardown(t) } }
            "sdd" => { let s = lk(&self.shared_dests).remove(&i(1)); drop(s); }
            "nop" => {}
            x => panic!("act {x}"),
        }
    }
    fn sd(&self, id: i64) -> Option<SharedSubscriber<BoxedSubscriber<V, V>>> { lk(&self.shared_dests).get(&id).cloned() }
    fn conn(&self, k: i64, f: impl FnOnce(&mut Box<dyn Conn>)) {
        let mut c = lk(&self.conns)[k as usize].dup();
        f(&mut c);
    }

    /// ["w", id, kind, a, b, c, {"run":[acts...]}, done_after]
    /// kinds: d(ms) r(interval, imm, max) c i(mmediate) v(invoked)
    fn schedule(self: &Arc<W>, a: &J) {
        let id = a[1].as_i64().unwrap();
        let kind = a[2].as_str().unwrap().to_string();
        let ms = a[3].as_i64().unwrap_or(0) as u64;
        let imm = a[4].as_i64().unwrap_or(0) != 0;
        let max = a[5].as_i64().unwrap_or(1) as usize;
        let runs = a[6].clone();
        let done = a[7].as_i64().unwrap_or(0);
        let w = Arc::downgrade(self);
        let mut n = 0i64;
        let mut go = move |t: Tick| -> WorkResult {
            n += 1;
            if let Some(w) = w.upgrade() {
                w.push(vec![EV_WORK, id, t.now().as_millis() as i64]);
                for r in runs.as_array().unwrap() {
                    if r[0].as_i64().unwrap() == n { for x in r[1].as_array().unwrap() { w.act(x); } }
                }
            }
            if done > 0 && n >= done { WorkResult::Done } else { WorkResult::Pending }
        };
        let h = self.sched.clone();
        if kind == "v" {
            let mut s = h.lock();
            let iid = *lk(&self.invoke_ids).entry(id).or_insert_with(|| s.generate_invoke_id());
            s.schedule_invoked_work(
                <Sched as Scheduler>::InvokedWorkFactory::new(move |t: Tick, _: &mut MockContext| go(t)), iid);
            return;
        }
        let mut s = h.lock();
        let cid = *lk(&self.cancel_ids).entry(id % 100).or_insert_with(|| s.generate_cancellation_id());
        match kind.as_str() {
            "d" => s.schedule_delayed_work(move |t: Tick, _: &mut MockContext| { go(t); }, Duration::from_millis(ms), cid),
            "r" => s.schedule_repeated_work(move |t: Tick, _: &mut MockContext| go(t), Duration::from_millis(ms), imm, max, cid),
            "c" => s.schedule_continuous_work(move |t: Tick, _: &mut MockContext| go(t), cid),
            "i" => s.schedule_immediate_work(move |t: Tick, _: &mut MockContext| { go(t); }, cid),
            x => panic!("work kind {x}"),
        }
    }

    pub fn closed_flags(&self) -> Vec<i64> {
        let mut r = vec![];
        for (id, s) in lk(&self.subs).iter() {
            r.push(*id);
            r.push(match s { Some(s) => if s.is_closed() { 1 } else { 0 }, None => -1 });
        }
        r
    }
    pub fn subject_flags(&self) -> Vec<i64> {
        lk(&self.subjects).iter().map(|s| if s.is_closed() { 1 } else { 0 }).collect()
    }
    pub fn stored(&self) -> Vec<Vec<Vec<i64>>> {
        lk(&self.subjects).iter().map(|s| s.stored().into_iter().map(|v| v.0).collect()).collect()
    }
    pub fn connected(&self) -> Vec<i64> { lk(&self.conns).iter().map(|c| c.is_connected() as i64).collect() }
    pub fn sched_empty(&self) -> i64 { if lk(&self.exec).is_empty() { 1 } else { 0 } }
}
