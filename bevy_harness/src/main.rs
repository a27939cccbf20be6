//! Runs traces of acts against a real Bevy `App` with the rx_bevy plugins and
//! reports, after every act, what happened and what is alive.
#[path = "../../harness/src/dynobs.rs"]
mod dynobs;
#[path = "../../harness/src/val.rs"]
mod val;

use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;

use bevy_app::{App, AppExit, Last, PostUpdate, PreUpdate, Update};
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use bevy_input::{ButtonInput, keyboard::KeyCode};
use bevy_time::{Fixed, Real, Time, Virtual};
use rx_bevy::prelude::*;
use rx_core_macro_observer_derive::RxObserver;
use serde_json::{Value as J, json};

use dynobs::DynObs;
use val::V;

fn lk<T>(m: &Mutex<T>) -> MutexGuard<'_, T> { m.lock().unwrap_or_else(|p| p.into_inner()) }

#[derive(EntityEvent, Clone)]
struct Ev { entity: Entity, v: V }
#[derive(Message, Clone)]
struct Msg(V);
#[derive(Resource)]
struct Res(V);

type Handle = SchedulerHandle<RxBevyScheduler>;
type Sub = Box<dyn SubscriptionWithTeardown + Send + Sync>;

#[derive(Default)]
struct H {
    log: Mutex<Vec<Vec<i64>>>,
    subjects: Mutex<Vec<PublishSubject<V, V>>>,
    ents: Mutex<BTreeMap<i64, Entity>>,
    sents: Mutex<BTreeMap<i64, Entity>>,
    subs: Mutex<BTreeMap<i64, Sub>>,
    scheds: Mutex<Vec<Handle>>,
    cancels: Mutex<BTreeMap<i64, (usize, WorkCancellationId)>>,
    react: Mutex<Vec<(i64, i64, Vec<J>)>>,
    seen: Mutex<BTreeMap<i64, i64>>,
}

#[derive(Resource, Clone)]
struct Hr(Arc<H>);
#[derive(Resource, Default)]
struct Todo { pre: Vec<J>, upd: Vec<J>, post: Vec<J> }

#[derive(RxObserver)]
#[rx_in(V)]
#[rx_in_error(V)]
struct Dest { id: i64, h: Arc<H>, base: i64, left: i64, own: i64 }
impl RxObserver for Dest {
    fn next(&mut self, v: V) {
        self.h.ev(self.base + 1, self.id, &v);
        self.left -= 1;
        if self.left == 0 { self.h.handle(self.own, |s| s.unsubscribe()); }
    }
    fn error(&mut self, v: V) { self.h.ev(self.base + 2, self.id, &v) }
    fn complete(&mut self) { self.h.ev(self.base + 3, self.id, &V(vec![])) }
}

impl H {
    fn ev(&self, code: i64, id: i64, v: &V) {
        let mut e = vec![code, id];
        e.extend(v.0.iter().copied());
        lk(&self.log).push(e);
    }
    fn sched(&self, j: &J) -> Handle { lk(&self.scheds)[j.as_u64().unwrap() as usize].clone() }
    fn ent(&self, j: &J) -> Entity { lk(&self.ents).get(&j.as_i64().unwrap()).copied().unwrap_or(Entity::PLACEHOLDER) }
    fn subj(&self, j: &J) -> PublishSubject<V, V> { lk(&self.subjects)[j.as_u64().unwrap() as usize].clone() }
    fn dest(self: &Arc<H>, j: &J) -> BoxedSubscriber<V, V> {
        match j[0].as_str().unwrap() {
            "d" => {
                let id = j[1].as_i64().unwrap();
                let mut o = ObserverSubscriber::new(Dest { id, h: self.clone(), base: 0, left: j[2].as_i64().unwrap_or(0), own: j[3].as_i64().unwrap_or(0) });
                o.add_teardown(self.td(4, id));
                Box::new(o)
            }
            "e" => Box::new(EntityDestination::<V, V>::new(self.ent(&j[1]), self.sched(&j[2])).upgrade()),
            "r" => {
                let (h, id, write) = (self.clone(), j[1].as_i64().unwrap(), j[3].as_i64().unwrap_or(0) == 1);
                Box::new(ResourceDestination::<V, V, Res, _, RxBevyScheduler>::new(
                    move |mut r: Mut<'_, Res>, n: ObserverNotification<V, V>| match n {
                        ObserverNotification::Next(v) => { h.ev(31, id, &v); if write { r.0 = v } }
                        ObserverNotification::Error(v) => h.ev(32, id, &v),
                        ObserverNotification::Complete => h.ev(33, id, &V(vec![])),
                    }, self.sched(&j[2])).upgrade())
            }
            "s" => Box::new(self.subj(&j[1]).upgrade()),
            x => panic!("dest {x}"),
        }
    }
    fn td(self: &Arc<H>, code: i64, id: i64) -> Teardown {
        let h = self.clone();
        Teardown::new(move || h.ev(code, id, &V(vec![])))
    }
    fn obs(self: &Arc<H>, j: &J) -> DynObs {
        let n = |k: usize| j[k].as_i64().unwrap();
        let ms = |k: usize| Duration::from_millis(j[k].as_u64().unwrap());
        match j[0].as_str().unwrap() {
            "subj" => DynObs::new(self.subj(&j[1])),
            "it" => DynObs::new((1..=n(1)).map(V::int).collect::<Vec<_>>().into_observable().map_error(|_: Never| V(vec![]))),
            "just" => DynObs::new(JustObservable::new(V::from_json(&j[1])).map_error(|_: Never| V(vec![]))),
            "throw" => DynObs::new(ThrowObservable::new(V::from_json(&j[1])).map(|_: Never| V(vec![]))),
            "never" => DynObs::new(NeverObservable.map(|_: Never| V(vec![])).map_error(|_: Never| V(vec![]))),
            "empty" => DynObs::new(EmptyObservable.map(|_: Never| V(vec![])).map_error(|_: Never| V(vec![]))),
            "ev" => DynObs::new(EventObservable::<Ev>::new(self.ent(&j[1]), self.sched(&j[2])).map(|e: Ev| e.v).map_error(|_: Never| V(vec![]))),
            "msg" => DynObs::new(MessageObservable::<Msg>::new(self.sched(&j[1])).map(|e: Msg| e.0).map_error(|_: Never| V(vec![]))),
            "res" => DynObs::new(ResourceObservable::new(|r: &Res| r.0.clone(), ResourceObservableOptions {
                trigger_on_is_added: n(1) == 1, trigger_on_is_changed: n(2) == 1 }, self.sched(&j[3])).map_error(|_: Never| V(vec![]))),
            "key" => DynObs::new(KeyboardObservable::new(KeyboardObservableOptions { emit: match n(1) {
                0 => KeyboardObservableEmit::JustPressed, 1 => KeyboardObservableEmit::WhilePressed, _ => KeyboardObservableEmit::JustReleased } },
                self.sched(&j[2])).map(|k: KeyCode| V::int(KEYS.iter().position(|x| *x == k).unwrap() as i64)).map_error(|_: Never| V(vec![]))),
            "px" => DynObs::new(ProxyObservable::<V, V>::new(self.ent(&j[1]), self.sched(&j[2]))),
            "intv" => DynObs::new(IntervalObservable::new(IntervalObservableOptions { duration: ms(1), max_emissions_per_tick: n(2) as usize,
                start_on_subscribe: n(3) == 1 }, self.sched(&j[4])).map(|k: usize| V::int(k as i64)).map_error(|_: Never| V(vec![]))),
            "timer" => DynObs::new(TimerObservable::new(ms(1), self.sched(&j[2])).map(|_: ()| V::int(0)).map_error(|_: Never| V(vec![]))),
            "delay" => DynObs::new(self.obs(&j[1]).delay(ms(2), self.sched(&j[3]))),
            "take" => DynObs::new(self.obs(&j[2]).take(n(1) as usize)),
            x => panic!("obs {x}"),
        }
    }
    fn put(&self, id: i64, s: Sub) { let old = lk(&self.subs).insert(id, s); drop(old); }
    fn handle<R>(&self, id: i64, f: impl FnOnce(&mut Sub) -> R) -> Option<R> {
        let mut s = { lk(&self.subs).remove(&id) }?;
        let r = f(&mut s);
        lk(&self.subs).insert(id, s);
        Some(r)
    }
}

const KEYS: [KeyCode; 4] = [KeyCode::KeyA, KeyCode::KeyB, KeyCode::KeyC, KeyCode::KeyD];

fn watch(w: &mut World, h: &Arc<H>, id: i64, e: Entity) {
    let h = h.clone();
    w.entity_mut(e).observe(move |t: On<RxSignal<V, V>>, mut commands: Commands| {
        match t.event().signal() {
            ObserverNotification::Next(v) => h.ev(21, id, v),
            ObserverNotification::Error(v) => h.ev(22, id, v),
            ObserverNotification::Complete => h.ev(23, id, &V(vec![])),
        }
        let n = { let mut s = lk(&h.seen); let c = s.entry(id).or_insert(0); *c += 1; *c };
        let todo: Vec<J> = lk(&h.react).iter().filter(|r| r.0 == id && r.1 == n).flat_map(|r| r.2.clone()).collect();
        for a in todo {
            let h = h.clone();
            commands.queue(move |w: &mut World| act(w, &h, &a));
        }
    });
}

fn act(w: &mut World, h: &Arc<H>, a: &J) {
    let i = |k: usize| a[k].as_i64().unwrap_or_else(|| panic!("int arg {k} of {a}"));
    match a[0].as_str().unwrap() {
        // an entity without anything on it; it logs the signals it receives
        "ent" => { let e = w.spawn_empty().id(); lk(&h.ents).insert(i(1), e); watch(w, h, i(1), e); }
        // give an entity an observable component
        "comp" => {
            let e = h.ent(&a[1]);
            if w.get_entity(e).is_err() { return }
            if a[2][0] == "S" { let s = h.subj(&a[2][1]); w.commands().entity(e).insert(SubjectComponent::new(s)); }
            else { let o = h.obs(&a[2]); w.commands().entity(e).insert(ObservableComponent::new(o)); }
        }
        "rmcomp" => {
            let e = h.ent(&a[1]);
            if w.get_entity(e).is_err() { return }
            w.commands().entity(e).remove::<(SubjectComponent<PublishSubject<V, V>>, ObservableComponent<DynObs>)>();
        }
        "csub" => {
            let d = h.dest(&a[3]);
            let e = h.ent(&a[2]);
            let s = w.commands().subscribe(e, d);
            lk(&h.sents).insert(i(1), s);
        }
        "qsub" => {
            let d = h.dest(&a[3]);
            let e = h.ent(&a[2]);
            let mut st = SystemState::<ObservableQuery<V, V>>::new(w);
            let r = st.get_mut(w).try_subscribe_to(e, d);
            st.apply(w);
            match r { Ok(s) => { lk(&h.sents).insert(i(1), s); } Err(_) => h.ev(7, i(1), &V(vec![])) }
        }
        "esub" => {
            let d = h.dest(&a[3]);
            let e = h.ent(&a[2]);
            if w.get_entity(e).is_err() { return }
            let k = h.sched(&a[4]);
            let s = w.commands().entity(e).as_observable::<V, V>(k).subscribe(d);
            lk(&h.sents).insert(i(1), bevy_ecs::entity::ContainsEntity::entity(&s));
            h.put(i(1), Box::new(s));
        }
        "wsub" => {
            let d = h.dest(&a[3]);
            let o = h.obs(&a[2]);
            let k = h.sched(&a[4]);
            let mut c = w.commands();
            let s = c.with_observable(o, k).subscribe(d);
            lk(&h.sents).insert(i(1), bevy_ecs::entity::ContainsEntity::entity(&s));
            h.put(i(1), Box::new(s));
        }
        "dsub" => {
            let d = h.dest(&a[3]);
            let mut o = h.obs(&a[2]);
            let s = o.subscribe(d);
            h.put(i(1), Box::new(s));
        }
        "kill" => { let e = h.ent(&a[1]); w.commands().entity(e).try_despawn(); }
        "killsub" => { if let Some(e) = { lk(&h.sents).get(&i(1)).copied() } { w.commands().unsubscribe(e); } }
        "rmsub" => {
            if let Some(e) = { lk(&h.sents).get(&i(1)).copied() } && w.get_entity(e).is_ok() { w.commands().entity(e).remove::<SubscriptionComponent>(); }
        }
        "unsub" => { h.handle(i(1), |s| s.unsubscribe()); }
        "drop" => { let s = { lk(&h.subs).remove(&i(1)) }; drop(s); }
        "td" => { let t = h.td(5, i(2)); h.handle(i(1), |s| s.add_teardown(t)); }
        "ctd" => {
            let t = h.td(5, i(2));
            if let Some(e) = { lk(&h.sents).get(&i(1)).copied() } && let Some(mut c) = w.get_mut::<SubscriptionComponent>(e) {
                c.add_teardown(t);
            }
        }
        "next" => h.subj(&a[1]).next(V::from_json(&a[2])),
        "err" => h.subj(&a[1]).error(V::from_json(&a[2])),
        "done" => h.subj(&a[1]).complete(),
        "sig" => {
            let e = h.ent(&a[1]);
            let v = || V::from_json(&a[3]);
            let s = match i(2) { 1 => RxSignal::<V, V>::new_next(v(), e), 2 => RxSignal::new_error(v(), e), _ => RxSignal::new_complete(e) };
            if w.get_entity(e).is_ok() { w.commands().trigger(s); }
        }
        "ev" => { let e = h.ent(&a[1]); if w.get_entity(e).is_ok() { w.trigger(Ev { entity: e, v: V::from_json(&a[2]) }); } }
        "msg" => { w.write_message(Msg(V::from_json(&a[1]))); }
        "res" => { w.insert_resource(Res(V::from_json(&a[1]))); }
        "resmut" => { if let Some(mut r) = w.get_resource_mut::<Res>() { r.0 = V::from_json(&a[1]); } }
        "resrm" => { w.remove_resource::<Res>(); }
        "press" => w.resource_mut::<ButtonInput<KeyCode>>().press(KEYS[i(1) as usize]),
        "release" => w.resource_mut::<ButtonInput<KeyCode>>().release(KEYS[i(1) as usize]),
        "keys" => w.resource_mut::<ButtonInput<KeyCode>>().clear(),
        "adv" => {
            let d = Duration::from_millis(i(2) as u64);
            match i(1) {
                0 => w.resource_mut::<Time<Virtual>>().advance_by(d),
                1 => w.resource_mut::<Time<Real>>().advance_by(d),
                2 => w.resource_mut::<Time<Fixed>>().advance_by(d),
                _ => w.resource_mut::<Time<()>>().advance_by(d),
            }
        }
        "work" => {
            // work ID KIND MS SCHED
            let (id, k) = (i(1), i(4) as usize);
            let sch = lk(&h.scheds)[k].clone();
            let mut s = sch.lock();
            let c = match { lk(&h.cancels).get(&id).copied() } { Some(c) => c.1, None => s.generate_cancellation_id() };
            lk(&h.cancels).insert(id, (k, c));
            let h2 = h.clone();
            let d = Duration::from_millis(i(3) as u64);
            let ran = move |now: Duration| h2.ev(10, id, &V(vec![now.as_millis() as i64]));
            match a[2].as_str().unwrap() {
                "imm" => { s.schedule_immediate_work(move |t: rx_core_scheduler_ticking::Tick, _: &mut RxBevyContextItem| ran(t.now()), c); }
                "del" => { s.schedule_delayed_work(move |t: rx_core_scheduler_ticking::Tick, _: &mut RxBevyContextItem| ran(t.now()), d, c); }
                "con" => { s.schedule_continuous_work(move |t: rx_core_scheduler_ticking::Tick, _: &mut RxBevyContextItem| { ran(t.now()); WorkResult::Pending }, c); }
                x => panic!("work {x}"),
            }
        }
        "cancel" => { if let Some((k, c)) = { lk(&h.cancels).get(&i(1)).copied() } { lk(&h.scheds)[k].lock().cancel(c); } }
        "exit" => { w.write_message(AppExit::Success); }
        "nop" => {}
        x => panic!("act {x}"),
    }
    w.flush();
}

macro_rules! doing {
    ($name:ident, $field:ident, $mark:expr) => {
        fn $name(w: &mut World) {
            let h = w.resource::<Hr>().0.clone();
            h.ev(12, $mark, &V(vec![]));
            let todo = std::mem::take(&mut w.resource_mut::<Todo>().$field);
            for a in todo { act(w, &h, &a); }
        }
    };
}
doing!(do_pre, pre, 3);
doing!(do_upd, upd, 0);
doing!(do_post, post, 1);
fn do_last(w: &mut World) { let h = w.resource::<Hr>().0.clone(); h.ev(12, 2, &V(vec![])); }

fn new_app(cfg: &J) -> (App, Arc<H>) {
    let mut app = App::new();
    app.init_resource::<Time<Virtual>>().init_resource::<Time<Real>>().init_resource::<Time<Fixed>>().init_resource::<Time<()>>();
    app.init_resource::<ButtonInput<KeyCode>>();
    app.add_message::<Msg>();
    app.add_plugins((RxPlugin, RxSchedulerPlugin::<Update, Virtual>::default(), RxSchedulerPlugin::<PostUpdate, Real>::default(),
        RxSchedulerPlugin::<PreUpdate, Fixed>::default()));
    let h = Arc::new(H::default());
    app.insert_resource(Hr(h.clone()));
    app.init_resource::<Todo>();
    app.add_systems(PreUpdate, do_pre.before(rx_executor::<PreUpdate, Fixed>));
    app.add_systems(Update, do_upd.before(rx_executor::<Update, Virtual>));
    app.add_systems(PostUpdate, do_post.before(rx_executor::<PostUpdate, Real>));
    app.add_systems(Last, do_last.before(rx_executor::<Last, Virtual>));
    {
        let w = app.world_mut();
        let a = SystemState::<RxSchedule<Update, Virtual>>::new(w).get_mut(w).handle();
        let b = SystemState::<RxSchedule<PostUpdate, Real>>::new(w).get_mut(w).handle();
        let c = SystemState::<RxSchedule<Last, Virtual>>::new(w).get_mut(w).handle();
        let d = SystemState::<RxSchedule<PreUpdate, Fixed>>::new(w).get_mut(w).handle();
        lk(&h.scheds).extend([a, b, c, d]);
    }
    if cfg["res"].as_array().is_some_and(|v| !v.is_empty()) { app.insert_resource(Res(V::from_json(&cfg["res"]))); }
    for _ in 0..cfg["subjects"].as_i64().unwrap_or(0) { lk(&h.subjects).push(PublishSubject::default()); }
    for r in cfg["react"].as_array().unwrap_or(&vec![]) {
        lk(&h.react).push((r[0].as_i64().unwrap(), r[1].as_i64().unwrap(), r[2].as_array().unwrap().clone()));
    }
    (app, h)
}

/// keyboard input of one poll is a set: the order inside it says nothing
fn canon(ev: Vec<Vec<i64>>, keyed: &[i64]) -> Vec<Vec<i64>> {
    let mut ev = ev;
    let mut k = 0;
    while k < ev.len() {
        let mut j = k;
        while j < ev.len() && [1, 21, 31].contains(&ev[j][0]) && ev[j][..2] == ev[k][..2] && keyed.contains(&ev[k][1]) { j += 1; }
        if j > k { ev[k..j].sort(); k = j } else { k += 1 }
    }
    ev
}

fn observe(app: &mut App, h: &Arc<H>, base: usize, keyed: &[i64]) -> J {
    let w = app.world_mut();
    let ev = canon(std::mem::take(&mut *lk(&h.log)), keyed);
    let al: Vec<i64> = lk(&h.ents).iter().flat_map(|(k, e)| vec![*k, w.get_entity(*e).is_ok() as i64]).collect();
    let sa: Vec<i64> = lk(&h.sents).iter().flat_map(|(k, e)| {
        // 0 gone, 1 waiting, 2 running (the subscription component says open), 3 lingering although closed, 4 bare
        let s = if w.get_entity(*e).is_err() { 0 } else if w.get::<UnfinishedSubscription>(*e).is_some() { 1 } else {
            match w.get::<SubscriptionComponent>(*e) { Some(c) if c.is_closed() => 3, Some(_) => 2, None => 4 } };
        vec![*k, s]
    }).collect();
    let cl: Vec<i64> = lk(&h.subs).iter().flat_map(|(k, s)| vec![*k, s.is_closed() as i64]).collect();
    // which running subscriptions an observable entity lists
    let rel: Vec<J> = lk(&h.ents).iter().map(|(k, e)| {
        let mut l: Vec<Entity> = vec![];
        if let Some(s) = w.get::<ObservableSubscriptions<ObservableComponent<DynObs>>>(*e) { l.extend(s.get_subscription_entities()) }
        if let Some(s) = w.get::<ObservableSubscriptions<SubjectComponent<PublishSubject<V, V>>>>(*e) { l.extend(s.get_subscription_entities()) }
        let known: Vec<i64> = { let se = lk(&h.sents); let mut v: Vec<i64> = l.iter().map(|x| se.iter().find(|y| y.1 == x).map(|y| *y.0).unwrap_or(-1)).collect(); v.sort(); v };
        json!([k, known])
    }).collect();
    let n = w.query::<Entity>().iter(w).count() as i64 - base as i64;
    json!({"ev": ev, "al": al, "sa": sa, "cl": cl, "rel": rel, "ne": n})
}

fn run(t: &J) -> J {
    let (mut app, h) = new_app(&t["cfg"]);
    app.world_mut().flush();
    let w = app.world_mut();
    let base = w.query::<Entity>().iter(w).count();
    let keyed: Vec<i64> = t["cfg"]["keyed"].as_array().map(|v| v.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default();
    let mut steps = vec![];
    for a in t["acts"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| {
            if a[0] == "frame" {
                let l = |k: usize| a[k].as_array().cloned().unwrap_or_default();
                *app.world_mut().resource_mut::<Todo>() = Todo { pre: l(1), upd: l(2), post: l(3) };
                app.update();
            } else { act(app.world_mut(), &h, a); }
        }));
        if r.is_err() {
            let mut ev = std::mem::take(&mut *lk(&h.log));
            ev.push(vec![8]);
            steps.push(json!({"ev": ev}));
            std::mem::forget(app);
            return json!({"id": t["id"], "steps": steps});
        }
        steps.push(observe(&mut app, &h, base, &keyed));
    }
    json!({"id": t["id"], "steps": steps})
}

fn main() {
    if std::env::var("RXH_DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let t: J = serde_json::from_str(&line.unwrap()).unwrap();
        // a deadlock must not stop everything: each trace has its own thread
        let (tx, rx) = std::sync::mpsc::channel();
        let id = t["id"].clone();
        let n = t["acts"].as_array().unwrap().len();
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let r = catch_unwind(AssertUnwindSafe(|| run(&t))); let _ = tx.send(r.unwrap_or(J::Null)); }).unwrap();
        let r = match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(J::Null) => json!({"id": id, "steps": [{"ev": [[9]]}]}),
            Ok(r) => r,
            Err(_) => { let _ = n; json!({"id": id, "steps": [{"ev": [[9]]}]}) }
        };
        writeln!(out.lock(), "{r}").unwrap();
    }
    let _ = out.lock().flush();
    std::process::exit(0);
}
