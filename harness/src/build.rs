//! JSON syntax trees -> real observables and operators.
//!
//! Observable: ["subj",k] | ["just",v] | ["iter",[v..]] | ["of",[v..]] | ["empty"] | ["never"] | ["throw",e]
//!  | ["closed"] | ["interval",ms,imm,max] | ["timer",ms] | ["iot",[v..],every,imm] | ["create",[["n",v]|["e",v]|["c"]..]]
//!  | ["def",id,O] | ["seq",id,[O..]] (k-th subscription uses the k-th) | ["merge",lim,[O..]] | ["concat",[O..]]
//!  | ["cl",A,B] | ["cc",A,B] | ["zip",A,B,max,behaviour] | ["join",A,B] | ["conn",k] | ["ref",k]
//!  | ["p",O,[op..]]
use std::sync::{Arc, Mutex, atomic::AtomicI64};
use std::time::Duration;

use rx_core::prelude::*;
use rx_core_testing::prelude::*;
use serde_json::Value as J;

use crate::dynobs::DynObs;
use crate::val::*;
use crate::world::*;

fn ms(j: &J) -> Duration { Duration::from_millis(j.as_u64().unwrap()) }
fn us(j: &J) -> usize { j.as_u64().unwrap() as usize }
fn i(j: &J) -> i64 { j.as_i64().unwrap() }
fn vs(j: &J) -> Vec<V> { j.as_array().unwrap().iter().map(V::from_json).collect() }

fn nv(_: Never) -> V { unreachable!() }

/// an observable built anew for every clone
macro_rules! mk {
    ($j:ident, $w:ident $(, $o:ident)?; $($e:tt)*) => {{
        let ($j, $w) = ($j.clone(), Arc::downgrade($w));
        DynObs::making(move || { let ($j, $w) = ($j.clone(), $w.upgrade().unwrap()); let _ = (&$j, &$w); $(let $o = $o.clone();)? $($e)* })
    }};
}

pub trait Conn: Send + Sync {
    fn connect(&mut self);
    fn disconnect(&mut self) -> bool;
    fn reset(&mut self);
    fn is_connected(&self) -> bool;
    fn obs(&self) -> DynObs;
    fn dup(&self) -> Box<dyn Conn>;
}
struct ConnBox<P>(ConnectableObservable<DynObs, P>)
where P: 'static + Provider, P::Provided: SubjectLike<In = V, InError = V> + Observable<Out = V, OutError = V> + Clone;
impl<P> Conn for ConnBox<P>
where P: 'static + Provider + Send + Sync, P::Provided: SubjectLike<In = V, InError = V> + Observable<Out = V, OutError = V> + Clone + Send + Sync, <P::Provided as Observable>::Subscription<BoxedSubscriber<V, V>>: Send + Sync {
    fn connect(&mut self) { let h = self.0.connect(); drop(h); }
    fn disconnect(&mut self) -> bool { self.0.disconnect() }
    fn reset(&mut self) { self.0.reset() }
    fn is_connected(&self) -> bool { self.0.is_connected() }
    fn obs(&self) -> DynObs { DynObs::cloning(self.0.clone()) }
    fn dup(&self) -> Box<dyn Conn> { Box::new(ConnBox(self.0.clone())) }
}

macro_rules! opts {
    ($p:expr, $bits:expr) => {{
        let mut o = ConnectableOptions::new($p);
        if $bits & 1 != 0 { o = o.disconnect_when_ref_count_zero(); }
        if $bits & 2 != 0 { o = o.reset_connector_on_disconnect(); }
        if $bits & 4 != 0 { o = o.reset_connector_on_error(); }
        if $bits & 8 != 0 { o = o.reset_connector_on_complete(); }
        o
    }};
}

/// ["conn", O, connector, bits] ; connector: "pub" | "rep" | "beh"
pub fn connectable(w: &Arc<W>, j: &J) -> Box<dyn Conn> {
    let src = observable(w, &j[1]);
    let bits = i(&j[3]);
    match j[2].as_str().unwrap() {
        "pub" => Box::new(ConnBox(ConnectableObservable::new(src, opts!(ProvideWithDefault::<PublishSubject<V, V>>::default(), bits)))),
        "rep" => Box::new(ConnBox(ConnectableObservable::new(src, opts!(ProvideWithDefault::<ReplaySubject<2, V, V>>::default(), bits)))),
        "beh" => Box::new(ConnBox(ConnectableObservable::new(src, opts!(ProvideWithFactory(|| BehaviorSubject::<V, V>::new(V::int(99))), bits)))),
        "one" => { let s = PublishSubject::<V, V>::default(); Box::new(ConnBox(ConnectableObservable::new(src, opts!(ProvideWithCloneOf(s), bits)))) }
        x => panic!("connector {x}"),
    }
}

fn change(c: Change<V>) -> V {
    match c { Change::JustUpdated(v) => V::tag(CJUST, &[&v]), Change::Latest(v) => V::tag(CLATEST, &[&v]), Change::None => V(vec![CNONE]) }
}

#[derive(Clone)]
struct CountedIter { w: std::sync::Weak<W>, id: i64, vs: Vec<V>, k: usize }
impl Iterator for CountedIter {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        if let Some(w) = self.w.upgrade() { w.push(vec![EV_CALL, self.id, self.k as i64]); }
        let r = self.vs.get(self.k).cloned();
        self.k += 1;
        r
    }
}

pub fn observable(w: &Arc<W>, j: &J) -> DynObs {
    let kind = j[0].as_str().unwrap_or_else(|| panic!("observable {j}"));
    match kind {
        "subj" => lk(&w.subjects)[us(&j[1])].clone().observe(j[2].as_i64().unwrap_or(0), j[3].as_i64().unwrap_or(0)),
        "just" => DynObs::cloning(just(V::from_json(&j[1])).map_error(nv)),
        "iter" => DynObs::cloning(IteratorObservable::new(vs(&j[1])).map_error(nv)),
        // an iterator whose `next` calls are logged: ["citer", id, [v..]]
        "citer" => DynObs::cloning(IteratorObservable::new(CountedIter { w: Arc::downgrade(w), id: i(&j[1]), vs: vs(&j[2]), k: 0 }).map_error(nv)),
        "empty" => DynObs::cloning(empty().map(nv).map_error(nv)),
        "never" => DynObs::cloning(never().map(nv).map_error(nv)),
        "closed" => DynObs::cloning(closed().map(nv).map_error(nv)),
        "throw" => DynObs::cloning(throw(V::from_json(&j[1])).map(nv)),
        "interval" => mk!(j, w; interval(
            IntervalObservableOptions { duration: ms(&j[1]), start_on_subscribe: i(&j[2]) != 0, max_emissions_per_tick: us(&j[3]) },
            w.sched.clone()).map(|n: usize| V::int(n as i64)).map_error(nv)),
        "timer" => mk!(j, w; timer(ms(&j[1]), w.sched.clone()).map(|_| V(vec![UNIT])).map_error(nv)),
        "iot" => mk!(j, w; IteratorOnTickObservable::new(
            vs(&j[1]), OnTickObservableOptions { emit_at_every_nth_tick: us(&j[2]), start_on_subscribe: i(&j[3]) != 0 }, w.sched.clone()).map_error(nv)),
        "ciot" => mk!(j, w; IteratorOnTickObservable::new(
            CountedIter { w: Arc::downgrade(&w), id: i(&j[4]), vs: vs(&j[1]), k: 0 }, OnTickObservableOptions { emit_at_every_nth_tick: us(&j[2]), start_on_subscribe: i(&j[3]) != 0 }, w.sched.clone()).map_error(nv)),
        "create" => {
            let script = j[1].clone();
            DynObs::cloning(create_observable(move |d: &mut dyn Subscriber<In = V, InError = V>| {
                for s in script.as_array().unwrap() {
                    match s[0].as_str().unwrap() {
                        "n" => d.next(V::from_json(&s[1])),
                        "e" => d.error(V::from_json(&s[1])),
                        "u" => d.unsubscribe(),
                        _ => d.complete(),
                    }
                }
            }))
        }
        "def" => {
            let (ww, id, o) = (Arc::downgrade(w), i(&j[1]), j[2].clone());
            DynObs::making(move || { let (ww, o) = (ww.clone(), o.clone()); deferred_observable(move || {
                let w = ww.upgrade().unwrap();
                w.push(vec![EV_SUBSCRIBED, id]);
                observable(&w, &o)
            }) })
        }
        // the k-th subscription runs the k-th observable (the last one from then on)
        "seq" => {
            let (ww, id, l) = (Arc::downgrade(w), i(&j[1]), j[2].clone());
            DynObs::making(move || { let (ww, l) = (ww.clone(), l.clone()); deferred_observable(move || {
                let w = ww.upgrade().unwrap();
                w.push(vec![EV_SUBSCRIBED, id]);
                let l = l.as_array().unwrap();
                let k = { let mut c = lk(&w.seqc); let e = c.entry(id).or_insert(0usize); let k = (*e).min(l.len() - 1); *e += 1; k };
                observable(&w, &l[k])
            }) })
        }
        "merge" | "concat" => {
            let (lim, l) = if kind == "merge" { (us(&j[1]), &j[2]) } else { (1, &j[1]) };
            let os: Vec<DynObs> = l.as_array().unwrap().iter().map(|o| observable(w, o)).collect();
            macro_rules! n { ($($n:literal)*) => { match os.len() { $($n => {
                let a: [DynObs; $n] = os.try_into().ok().unwrap();
                if kind == "merge" { DynObs::cloning(merge(a, lim)) } else { DynObs::cloning(concat(a)) } })*
                x => panic!("merge of {x}") } } }
            n!(1 2 3 4)
        }
        "cl" => mk!(j, w; combine_latest(observable(&w, &j[1]), observable(&w, &j[2])).map(|(a, b)| V::pair(&a, &b))),
        "cc" => mk!(j, w; combine_changes(observable(&w, &j[1]), observable(&w, &j[2])).map(|(a, b)| V::pair(&change(a), &change(b)))),
        "zip" => {
            let mut o = rx_core::observable_fn::zip(observable(w, &j[1]), observable(w, &j[2]));
            if let Some(m) = j[3].as_u64() {
                o = o.with_options(QueueOverflowOptions { max_queue_length: m as usize,
                    overflow_behavior: if i(&j[4]) == 0 { QueueOverflowBehavior::DropOldest } else { QueueOverflowBehavior::IgnoreNext } });
            }
            DynObs::cloning(o.map(|(a, b)| V::pair(&a, &b)))
        }
        "join" => mk!(j, w; join(observable(&w, &j[1]), observable(&w, &j[2])).map(|(a, b)| V::pair(&a, &b))),
        "conn" => lk(&w.conns)[us(&j[1])].obs(),
        // a clone of an observable of the configuration, or (["ref",k,1]) that observable itself
        "ref" => { let o = lk(&w.obs); let o = &o[us(&j[1])]; if j[2].as_i64() == Some(1) { o.same() } else { o.clone() } }
        "p" => {
            let mut o = observable(w, &j[1]);
            for op in j[2].as_array().unwrap() { o = operator(w, o, op); }
            o
        }
        x => panic!("observable {x}"),
    }
}

fn inners(w: &Arc<W>, l: &J) -> Arc<Mutex<Vec<DynObs>>> {
    Arc::new(Mutex::new(l.as_array().unwrap().iter().map(|o| observable(w, o)).collect()))
}

#[derive(Clone)]
struct W2(V);
impl From<V> for W2 { fn from(v: V) -> Self { W2(v) } }

fn notif(n: ObserverNotification<V, V>) -> V {
    match n { ObserverNotification::Next(v) => V::tag(NNEXT, &[&v]), ObserverNotification::Error(e) => V::tag(NERR, &[&e]), ObserverNotification::Complete => V(vec![NCOMP]) }
}
fn unnotif(v: V) -> ObserverNotification<V, V> {
    match v.0[0] { NERR => ObserverNotification::Error(V(v.0[1..].to_vec())), NCOMP => ObserverNotification::Complete,
        NNEXT => ObserverNotification::Next(V(v.0[1..].to_vec())), _ => ObserverNotification::Next(v) }
}
fn res(r: Result<V, V>) -> V { match r { Ok(v) => V::tag(OK, &[&v]), Err(e) => V::tag(ERR, &[&e]) } }

struct TapObs { w: std::sync::Weak<W>, id: i64 }
impl Clone for TapObs { fn clone(&self) -> Self { TapObs { w: self.w.clone(), id: self.id } } }
impl ObserverInput for TapObs { type In = V; type InError = V; }
impl RxObserver for TapObs {
    fn next(&mut self, v: V) { self.log(EV_NEXT, v) }
    fn error(&mut self, v: V) { self.log(EV_ERROR, v) }
    fn complete(&mut self) { self.log(EV_COMPLETE, V(vec![])) }
}
impl TapObs {
    fn log(&self, c: i64, v: V) {
        if let Some(w) = self.w.upgrade() {
            let mut e = vec![EV_CALL, self.id, c]; e.extend(v.0); w.push(e);
            w.react(self.id, match c { EV_NEXT => "n", EV_ERROR => "e", _ => "c" }, 1);
        }
    }
}

fn modr(v: &V, j: &J) -> bool { v.last().rem_euclid(i(&j[1])) == i(&j[2]) }

pub fn operator(w: &Arc<W>, o: DynObs, j: &J) -> DynObs {
    let ww = Arc::downgrade(w);
    let name = j[0].as_str().unwrap();
    match name {
        "map" => { let k = i(&j[1]); DynObs::cloning(o.map(move |v: V| v.add(k))) }
        // logged mapper
        "maps" => { let id = i(&j[1]); DynObs::cloning(o.map(move |v: V| { if let Some(w) = ww.upgrade() { let mut e = vec![EV_CALL, id]; e.extend(v.0.iter()); w.push(e); } v })) }
        "filter" => { let jj = j.clone(); DynObs::cloning(o.filter(move |v: &V, _| modr(v, &jj))) }
        // keeps by index
        "fidx" => { let m = us(&j[1]); DynObs::cloning(o.filter(move |_: &V, k| k % m == 0)) }
        "fmap" => { let jj = j.clone(); DynObs::cloning(o.filter_map(move |v: V| if modr(&v, &jj) { Some(v.add(100)) } else { None })) }
        "take" => DynObs::cloning(o.take(us(&j[1]))),
        "skip" => DynObs::cloning(o.skip(us(&j[1]))),
        "first" => DynObs::cloning(o.first().map_error(|e| match e { rx_core_operator_first::FirstOperatorError::NoNextObservedBeforeComplete => V(vec![E_NONEXT]), rx_core_operator_first::FirstOperatorError::Upstream(e) => e })),
        "find" => { let jj = j.clone(); DynObs::cloning(o.find(move |v: &V| modr(v, &jj)).map_error(|e| match e {
            FindOperatorError::NoNextObservedBeforeComplete => V(vec![E_NONEXT]), FindOperatorError::NoMatchObserved => V(vec![E_NOMATCH]), FindOperatorError::Upstream(e) => e })) }
        "findi" => { let jj = j.clone(); DynObs::cloning(o.find_index(move |v: &V| modr(v, &jj)).map(|n: usize| V::int(n as i64)).map_error(|e| match e {
            FindIndexOperatorError::NoNextObservedBeforeComplete => V(vec![E_NONEXT]), FindIndexOperatorError::NoMatchObserved => V(vec![E_NOMATCH]), FindIndexOperatorError::Upstream(e) => e })) }
        "elat" => DynObs::cloning(o.element_at(us(&j[1])).map_error(|e| match e {
            ElementAtOperatorError::IndexOutOfRange { requested_index, observed_nexts } => V(vec![E_RANGE, requested_index as i64, observed_nexts as i64]), ElementAtOperatorError::Upstream(e) => e })),
        "elatd" => { let d = V::from_json(&j[2]); DynObs::cloning(o.element_at_or_else(us(&j[1]), ProvideWithFactory(move || d.clone())).map_error(|e| match e {
            ElementAtOperatorError::IndexOutOfRange { requested_index, observed_nexts } => V(vec![E_RANGE, requested_index as i64, observed_nexts as i64]), ElementAtOperatorError::Upstream(e) => e })) }
        "isempty" => DynObs::cloning(o.is_empty().map(|b| V::int(b as i64))),
        "count" => DynObs::cloning(o.count().map(|n: usize| V::int(n as i64))),
        "scan" => DynObs::cloning(o.scan(|a: &V, v: V| a.add(v.last()), V::from_json(&j[1]))),
        "reduce" => DynObs::cloning(o.reduce(|a: &V, v: V| a.add(v.last()), V::from_json(&j[1]))),
        "pair" => DynObs::cloning(o.pairwise().map(|[a, b]: [V; 2]| V::pair(&a, &b))),
        "buf" => DynObs::cloning(o.buffer_count(us(&j[1])).map(|l: Vec<V>| V::list(&l))),
        "sw" => DynObs::cloning(o.start_with(V::from_json(&j[1]))),
        "ew" => DynObs::cloning(o.end_with(V::from_json(&j[1]))),
        "enum" => DynObs::cloning(o.enumerate().map(|(v, n): (V, usize)| V::pair(&v, &V::int(n as i64)))),
        "tap" => DynObs::cloning(o.tap(TapObs { w: ww, id: i(&j[1]) })),
        "tapn" => { let id = i(&j[1]); DynObs::cloning(o.tap_next(move |v: &V| if let Some(w) = ww.upgrade() { let mut e = vec![EV_CALL, id]; e.extend(v.0.iter()); w.push(e); w.react(id, "n", 1); })) }
        // on_next: forwards when last % m == r, sends an extra value 500+last first when last is 7
        "onn" => { let jj = j.clone(); DynObs::cloning(o.on_next(move |v: &V, d: &mut dyn Subscriber<In = V, InError = V>| { if v.last() == 7 { d.next(v.add(500)); } modr(v, &jj) })) }
        "lo" => { let jj = j.clone(); DynObs::cloning(o.map(move |v: V| if modr(&v, &jj) { Some(v) } else { None }).lift_option()) }
        "mat" => DynObs::cloning(o.materialize().map(notif).map_error(nv)),
        "demat" => DynObs::cloning(o.map(unnotif).into_result().filter_map(|r: Result<_, V>| r.ok()).dematerialize()),
        "matdemat" => DynObs::cloning(o.materialize().dematerialize()),
        "intores" => DynObs::cloning(o.into_result().map(res).map_error(nv)),
        // values with last % m == r become errors
        "liftres" => { mk!(j, w, o; { let jj = j.clone(); o.into_result().map(move |r: Result<V, V>| match r { Ok(v) => if modr(&v, &jj) { Err(v) } else { Ok(v) }, Err(e) => Err(e) }).lift_result() }) }
        "errb" => mk!(j, w, o; o.into_result().map(res).error_boundary().map_error(nv)),
        "maperr" => { let k = i(&j[1]); DynObs::cloning(o.map_error(move |v: V| v.add(k))) }
        "mapinto" => DynObs::cloning(o.map_into::<W2, W2>().map(|w: W2| w.0).map_error(|w: W2| w.0)),
        "mapnever" => DynObs::cloning(o.into_result().map(res).map_never()),
        "ident" => DynObs::cloning(IdentityOperator::<V, V>::default().operate(o)),
        // canned composite operators
        "cmp" => match i(&j[1]) {
            0 => mk!(j, w, o; CompositeOperator::new(MapOperator::<V, V, _, V>::new(|v: V| v.add(1)), TakeOperator::<V, V>::new(2)).operate(o)),
            1 => mk!(j, w, o; CompositeOperator::new(SkipOperator::<V, V>::new(1), ScanOperator::<V, V, _, V>::new(|a: &V, v: V| a.add(v.last()), V::int(10))).operate(o)),
            2 => mk!(j, w, o; compose_operator::<V, V>().map(|v: V| v.add(2)).filter(|v: &V, _| v.last() % 2 == 0).count().map(|n: usize| V::int(n as i64)).operate(o)),
            _ => mk!(j, w, o; compose_operator::<V, V>().take(3).end_with(V::int(77)).operate(o)),
        },
        "catch" => { let (l, wk) = (j[1].clone(), ww); DynObs::cloning(o.catch(move |e: V| { let w = wk.upgrade().unwrap(); let mut ev = vec![EV_CALL, 800]; ev.extend(e.0.iter()); w.push(ev); observable(&w, &l) })) }
        "retry" => DynObs::cloning(o.retry(us(&j[1]))),
        "fin" => { let id = i(&j[1]); DynObs::cloning(o.finalize(move || if let Some(w) = ww.upgrade() { w.push(vec![EV_TEARDOWN, id]); w.react(id, "t", 0); })) }
        "onsub" => {
            let id = i(&j[1]); let v = j[2].as_i64();
            DynObs::cloning(o.on_subscribe(move |d: &mut dyn Subscriber<In = V, InError = V>| {
                if let Some(w) = ww.upgrade() { w.push(vec![EV_SUBSCRIBED, id]); }
                if let Some(v) = v { d.next(V::int(v)); }
            }))
        }
        "delay" => mk!(j, w, o; o.delay(ms(&j[1]), w.sched.clone())),
        "obson" => mk!(j, w, o; o.observe_on(w.sched.clone())),
        "subon" => mk!(j, w, o; o.subscribe_on_with_delay(ms(&j[1]), w.sched.clone())),
        "deb" => mk!(j, w, o; o.debounce_time(ms(&j[1]), w.sched.clone())),
        "thr" => mk!(j, w, o; o.throttle_time(ThrottleTimeOptions::new(ms(&j[1])).with_output(match i(&j[2]) {
            0 => ThrottleOutputBehavior::LeadingOnly, 1 => ThrottleOutputBehavior::TrailingOnly, _ => ThrottleOutputBehavior::LeadingAndTrailing }), w.sched.clone())),
        "fws" => mk!(j, w, o; o.fallback_when_silent(|t: rx_core_scheduler_ticking::Tick, _: &mut MockContext, n: usize| {
            use rx_core_common::WorkTick; V::pair(&V::int(t.now().as_millis() as i64), &V::int(n as i64)) }, w.sched.clone())),
        // ["adsr", always_none, reset, attack, decay, release, sustain%]: value 0 = deactivate, else activate
        "adsr" => {
            use rx_core::operator::*;
            let opts = AdsrOperatorOptions {
                always_emit_none: i(&j[1]) != 0, reset_input_on_tick: i(&j[2]) != 0,
                envelope: AdsrEnvelope { attack_time: ms(&j[3]), decay_time: ms(&j[4]), release_time: ms(&j[5]),
                    sustain_volume: i(&j[6]) as f32 / 100.0, ..Default::default() },
            };
            mk!(j, w, o; o.map(|v: V| AdsrTrigger::from(v.last() != 0)).adsr(opts.clone(), w.sched.clone()).map(adsr_v))
        }
        "share" => {
            let bits = i(&j[2]);
            match j[1].as_str().unwrap() {
                "pub" => DynObs::cloning(o.share(opts!(ProvideWithDefault::<PublishSubject<V, V>>::default(), bits))),
                "rep" => DynObs::cloning(o.share(opts!(ProvideWithDefault::<ReplaySubject<2, V, V>>::default(), bits))),
                "beh" => DynObs::cloning(o.share(opts!(ProvideWithFactory(|| BehaviorSubject::<V, V>::new(V::int(99))), bits))),
                x => panic!("connector {x}"),
            }
        }
        "wlf" => mk!(j, w, o; o.with_latest_from(observable(&w, &j[1])).map(|(a, b)| V::pair(&a, &b))),
        // higher order: the value picks the inner observable
        "mm" | "cm" | "sm" | "em" | "ma" | "ca" | "sa" | "ea" => {
            let lim = us(&j[1]);
            let l = inners(w, &j[2]);
            let pick = move |v: V| -> DynObs { let l = lk(&l); l[v.last().rem_euclid(l.len() as i64) as usize].clone() };
            let em = |e: V| e;
            match name {
                "mm" => DynObs::cloning(o.merge_map(pick, lim, em)),
                "cm" => DynObs::cloning(o.concat_map(pick, em)),
                "sm" => DynObs::cloning(o.switch_map(pick, em)),
                "em" => DynObs::cloning(o.exhaust_map(pick, em)),
                "ma" => DynObs::cloning(o.map(pick).merge_all(lim, em)),
                "ca" => DynObs::cloning(o.map(pick).concat_all(em)),
                "sa" => DynObs::cloning(o.map(pick).switch_all(em)),
                _ => DynObs::cloning(o.map(pick).exhaust_all(em)),
            }
        }
        // forces unclonability / erasure through the library's own erased observable
        "erase" => DynObs::cloning(o.erase()),
        x => panic!("operator {x}"),
    }
}

fn adsr_v(s: rx_core::operator::AdsrSignal) -> V {
    V(vec![PAIR, s.adsr_envelope_phase as i64, s.phase_transition.bits() as i64, s.t.as_millis() as i64, (s.value * 1000.0).round() as i64])
}
#[allow(unused)]
fn unused(_: &AtomicI64) {}
