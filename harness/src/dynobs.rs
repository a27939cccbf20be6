//! Type erasure that keeps `is_closed` of the real subscription observable
//! (the library's own erased subscription wraps it in a fresh flag).
use std::sync::{Arc, Mutex};
use rx_core::prelude::*;
use rx_core_macro_observable_derive::RxObservable;
use rx_core_macro_subscription_derive::RxSubscription;
use crate::val::V;

type Sub = Box<dyn SubscriptionWithTeardown + Send + Sync>;
type SubscribeFn = dyn FnMut(BoxedSubscriber<V, V>) -> Sub + Send + Sync;

#[derive(RxObservable)]
#[rx_out(V)]
#[rx_out_error(V)]
pub struct DynObs {
    f: Arc<Mutex<Box<SubscribeFn>>>,
    /// clones of a real clonable observable are clones of it
    factory: Option<Arc<dyn Fn() -> Box<SubscribeFn> + Send + Sync>>,
}

impl Clone for DynObs {
    fn clone(&self) -> Self {
        match &self.factory {
            Some(f) => DynObs { f: Arc::new(Mutex::new(f())), factory: Some(f.clone()) },
            None => DynObs { f: self.f.clone(), factory: None },
        }
    }
}

impl DynObs {
    pub fn new<O>(mut o: O) -> DynObs
    where O: 'static + Observable<Out = V, OutError = V> + Send + Sync {
        DynObs {
            f: Arc::new(Mutex::new(Box::new(move |d| Box::new(o.subscribe(d)) as Sub))),
            factory: None,
        }
    }
    /// an observable that is built anew for each clone of the DynObs
    pub fn making<O>(make: impl Fn() -> O + Send + Sync + 'static) -> DynObs
    where O: 'static + Observable<Out = V, OutError = V> + Send + Sync {
        let factory: Arc<dyn Fn() -> Box<SubscribeFn> + Send + Sync> = Arc::new(move || {
            let mut o = make();
            Box::new(move |d| Box::new(o.subscribe(d)) as Sub)
        });
        DynObs { f: Arc::new(Mutex::new(factory())), factory: Some(factory) }
    }
    /// a clonable observable: each clone of the DynObs is a clone of `o`
    pub fn cloning<O>(o: O) -> DynObs
    where O: 'static + Observable<Out = V, OutError = V> + Clone + Send + Sync {
        let (template, mut own) = (o.clone(), o);
        let factory: Arc<dyn Fn() -> Box<SubscribeFn> + Send + Sync> = Arc::new(move || {
            let mut o = template.clone();
            Box::new(move |d| Box::new(o.subscribe(d)) as Sub)
        });
        DynObs { f: Arc::new(Mutex::new(Box::new(move |d| Box::new(own.subscribe(d)) as Sub))), factory: Some(factory) }
    }
    /// the very same observable, not a clone of it
    pub fn same(&self) -> DynObs { DynObs { f: self.f.clone(), factory: None } }
}

#[derive(RxSubscription)]
#[rx_skip_unsubscribe_on_drop_impl]
pub struct DynSub { pub inner: Sub }

impl SubscriptionLike for DynSub {
    fn is_closed(&self) -> bool { self.inner.is_closed() }
    fn unsubscribe(&mut self) { self.inner.unsubscribe() }
}
impl TeardownCollection for DynSub {
    fn add_teardown(&mut self, t: Teardown) { self.inner.add_teardown(t) }
}
impl Drop for DynSub { fn drop(&mut self) {} }

impl Observable for DynObs {
    type Subscription<Destination> = DynSub
    where Destination: 'static + Subscriber<In = V, InError = V>;

    fn subscribe<Destination>(&mut self, destination: Destination) -> DynSub
    where Destination: 'static + UpgradeableObserver<In = V, InError = V> + Send + Sync {
        let d: BoxedSubscriber<V, V> = Box::new(destination.upgrade());
        // The closure is taken out for the call: a nested subscribe to the same
        // erased observable is legal for the observables it stands for.
        let f = self.f.clone();
        let mut taken = {
            let mut g = f.lock().unwrap_or_else(|p| p.into_inner());
            std::mem::replace(&mut *g, Box::new(|_| panic!("nested subscribe of an unclonable observable")))
        };
        let r = taken(d);
        *f.lock().unwrap_or_else(|p| p.into_inner()) = taken;
        DynSub { inner: r }
    }
}
