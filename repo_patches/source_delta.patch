From efad63b34ebc7760b05c4cea2312a81512f1f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 01/55] fix: erased observables return a subscription that
 reports and follows the closing of the erased one

---
 .../src/observables/erased_observable.rs            |  8 ++++----
 .../erased_subscribe_observable_extension.rs        | 13 +++++++------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/rx_core_common/src/observables/erased_observable.rs b/crates/rx_core_common/src/observables/erased_observable.rs
index 71cc8b8..ed685c6 100644
--- a/crates/rx_core_common/src/observables/erased_observable.rs
+++ b/crates/rx_core_common/src/observables/erased_observable.rs
@@ -4,7 +4,7 @@ use std::{
 };
 
 use crate::{
-	ErasedSubscriber, Observable, PhantomInvariant, Signal, Subscriber, SubscriptionData,
+	ErasedSubscriber, ErasedSubscription, Observable, PhantomInvariant, Signal, Subscriber,
 	UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
@@ -19,7 +19,7 @@ where
 	OutError: Signal,
 {
 	subscribe:
-		Arc<Mutex<dyn FnMut(ErasedSubscriber<Out, OutError>) -> SubscriptionData + Send + Sync>>,
+		Arc<Mutex<dyn FnMut(ErasedSubscriber<Out, OutError>) -> ErasedSubscription + Send + Sync>>,
 	_phantom_data: PhantomInvariant<(Out, OutError)>,
 }
 
@@ -35,7 +35,7 @@ where
 		ErasedObservable {
 			subscribe: Arc::new(Mutex::new(move |destination| {
 				let subscription = observable.subscribe(destination);
-				SubscriptionData::new_with_teardown(subscription.into())
+				ErasedSubscription::new(subscription)
 			})),
 			_phantom_data: PhantomData,
 		}
@@ -61,7 +61,7 @@ where
 	OutError: Signal,
 {
 	type Subscription<Destination>
-		= SubscriptionData
+		= ErasedSubscription
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
diff --git a/crates/rx_core_common/src/observables/erased_subscribe_observable_extension.rs b/crates/rx_core_common/src/observables/erased_subscribe_observable_extension.rs
index ae7bf83..6e04657 100644
--- a/crates/rx_core_common/src/observables/erased_subscribe_observable_extension.rs
+++ b/crates/rx_core_common/src/observables/erased_subscribe_observable_extension.rs
@@ -1,8 +1,10 @@
-use crate::{BoxedSubscriber, ErasedSubscriber, Observable, SubscriptionData};
+use crate::{BoxedSubscriber, ErasedSubscriber, ErasedSubscription, Observable};
 
 pub trait ErasedSubscribeObservableExtension<Out, OutError> {
-	fn erased_subscribe(&mut self, destination: BoxedSubscriber<Out, OutError>)
-	-> SubscriptionData;
+	fn erased_subscribe(
+		&mut self,
+		destination: BoxedSubscriber<Out, OutError>,
+	) -> ErasedSubscription;
 }
 
 impl<O> ErasedSubscribeObservableExtension<O::Out, O::OutError> for O
@@ -12,8 +14,7 @@ where
 	fn erased_subscribe(
 		&mut self,
 		destination: BoxedSubscriber<O::Out, O::OutError>,
-	) -> SubscriptionData {
-		let subscription = self.subscribe(ErasedSubscriber::new(destination));
-		SubscriptionData::new_with_teardown(subscription.into())
+	) -> ErasedSubscription {
+		ErasedSubscription::new(self.subscribe(ErasedSubscriber::new(destination)))
 	}
 }
-- 
2.43.0


From 620a67310ee0cd446e72a545472344bfae447b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 02/55] fix: is_empty emits its result only once when the
 source completes after its first value

---
 .../src/is_empty_subscriber.rs                | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
index 337275f..1c08a53 100644
--- a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
+++ b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
@@ -15,6 +15,7 @@ where
 {
 	#[destination]
 	destination: Destination,
+	result_emitted: bool,
 	_phantom_data: PhantomInvariant<In>,
 }
 
@@ -26,6 +27,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			result_emitted: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -38,9 +40,12 @@ where
 {
 	#[inline]
 	fn next(&mut self, _next: Self::In) {
-		self.destination.next(false);
-		if !self.destination.is_closed() {
-			self.destination.complete();
+		if !self.result_emitted {
+			self.result_emitted = true;
+			self.destination.next(false);
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 
@@ -51,9 +56,12 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.next(true);
-		if !self.destination.is_closed() {
-			self.destination.complete();
+		if !self.result_emitted {
+			self.result_emitted = true;
+			self.destination.next(true);
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 }
-- 
2.43.0


From 8f6e1e8d3a1a2ff0072cf5c3f1178958cc5642cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 03/55] fix: subscribing to a finished publish subject does not
 hold its state lock while notifying the subscriber

---
 .../src/publish_subject.rs                    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 095eb93..1c3bdf1 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -117,13 +117,20 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		{
+		let (observed_error, is_completed) = {
 			let state = self.deferred_state.lock_ignore_poison();
-			if let Some(error) = state.observed_error.clone() {
-				subscriber.error(error);
-			} else if state.observed_state.is_completed() {
-				subscriber.complete();
-			}
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+			)
+		};
+
+		// The subscriber may call back into this subject, so no lock can be held
+		// while it is being notified.
+		if let Some(error) = observed_error {
+			subscriber.error(error);
+		} else if is_completed {
+			subscriber.complete();
 		}
 
 		if self.is_closed() {
-- 
2.43.0


From c40161f827d07aa42edc0ecb223ebd305ff88442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 04/55] fix: behavior, replay and async subjects do not
 remember values sent after they were closed

---
 crates/rx_core_subject_async/src/async_subject.rs       | 4 ++++
 crates/rx_core_subject_behavior/src/behavior_subject.rs | 7 ++++++-
 crates/rx_core_subject_replay/src/replay_subject.rs     | 7 ++++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index f38c232..17fc5b0 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -85,6 +85,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.is_closed() {
+			return;
+		}
+
 		let mut value = self.value.lock_ignore_poison();
 
 		let next_value = if let Some(current) = value.take() {
diff --git a/crates/rx_core_subject_behavior/src/behavior_subject.rs b/crates/rx_core_subject_behavior/src/behavior_subject.rs
index 73da64d..3b0b4f5 100644
--- a/crates/rx_core_subject_behavior/src/behavior_subject.rs
+++ b/crates/rx_core_subject_behavior/src/behavior_subject.rs
@@ -1,7 +1,8 @@
 use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.is_closed() {
+			return;
+		}
+
 		*self.value.lock_ignore_poison() = next.clone();
 		self.subject.next(next);
 	}
diff --git a/crates/rx_core_subject_replay/src/replay_subject.rs b/crates/rx_core_subject_replay/src/replay_subject.rs
index 654e2da..707e8de 100644
--- a/crates/rx_core_subject_replay/src/replay_subject.rs
+++ b/crates/rx_core_subject_replay/src/replay_subject.rs
@@ -2,7 +2,8 @@ use std::sync::{Arc, Mutex};
 
 use ringbuffer::{ConstGenericRingBuffer, RingBuffer};
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.is_closed() {
+			return;
+		}
+
 		self.values.lock_ignore_poison().enqueue(next.clone());
 
 		self.subject.next(next);
-- 
2.43.0


From 386859f3c9f8f94fe789165b631fe870ed856d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 05/55] fix: calls deferred by the teardowns of an individually
 unsubscribed subscriber of a subject are applied

---
 crates/rx_core_subject_publish/src/multicast.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 039c7f1..33fcd1c 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -280,6 +280,10 @@ where
 
 				subscribers.unsubscribe_by_id(id);
 
+				// The unsubscribed subscriber's teardowns may have deferred new
+				// notifications that nobody else would apply.
+				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
+
 				Ok(())
 			}
 			Err(_) => Err(MulticastUnsubscribeLockError),
-- 
2.43.0


From a9b612c00d2f64b92951de6f122ce80198077ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 06/55] fix: interval values are not emitted after an
 unsubscription made while emitting in the same tick

---
 .../src/interval_subscription.rs                          | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_observable_interval/src/interval_subscription.rs b/crates/rx_core_observable_interval/src/interval_subscription.rs
index addcea8..ead7888 100644
--- a/crates/rx_core_observable_interval/src/interval_subscription.rs
+++ b/crates/rx_core_observable_interval/src/interval_subscription.rs
@@ -38,7 +38,7 @@ where
 		let cancellation_id = {
 			let mut scheduler = scheduler.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			let mut count = if interval_subscription_options.start_on_subscribe {
 				1
@@ -48,13 +48,11 @@ where
 
 			scheduler.schedule_repeated_work(
 				move |_, _| {
-					let mut destination_lock = destination_clone.lock();
-
-					if destination_lock.is_closed() {
+					if destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
-					destination_lock.next(count);
+					destination_clone.next(count);
 					count += 1;
 
 					WorkResult::Pending
-- 
2.43.0


From 41272efabb8642163b1bb6352c1852d747dc0ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 07/55] fix: timer does not complete an already unsubscribed
 subscriber and cancels its work on early close

---
 .../src/timer_subscription.rs                 | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/rx_core_observable_timer/src/timer_subscription.rs b/crates/rx_core_observable_timer/src/timer_subscription.rs
index 95b9bb4..d5a5df4 100644
--- a/crates/rx_core_observable_timer/src/timer_subscription.rs
+++ b/crates/rx_core_observable_timer/src/timer_subscription.rs
@@ -1,8 +1,8 @@
 use std::time::Duration;
 
 use rx_core_common::{
-	Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber, Subscriber,
-	SubscriptionLike, WorkCancellationId,
+	RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber,
+	Subscriber, SubscriptionLike, TeardownCollectionExtension, WorkCancellationId,
 };
 use rx_core_macro_subscription_derive::RxSubscription;
 
@@ -22,7 +22,7 @@ where
 impl<Destination, S> TimerSubscription<Destination, S>
 where
 	Destination: 'static + Subscriber<In = ()>,
-	S: Scheduler,
+	S: 'static + Scheduler,
 {
 	pub fn new(
 		destination: Destination,
@@ -30,18 +30,17 @@ where
 		scheduler: SchedulerHandle<S>,
 	) -> Self {
 		let scheduler_clone = scheduler.clone();
-		let destination = SharedSubscriber::new(destination);
+		let mut destination = SharedSubscriber::new(destination);
 		let cancellation_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			scheduler.schedule_delayed_work(
 				move |_, _| {
-					let mut destination = destination_clone.lock();
-					destination.next(());
-					if !destination.is_closed() {
-						destination.complete();
+					destination_clone.next(());
+					if !destination_clone.is_closed() {
+						destination_clone.complete();
 					}
 				},
 				duration,
@@ -51,6 +50,11 @@ where
 			cancellation_id
 		};
 
+		let scheduler_clone = scheduler.clone();
+		destination.add_fn(move || {
+			scheduler_clone.lock().cancel(cancellation_id);
+		});
+
 		TimerSubscription {
 			destination,
 			scheduler,
-- 
2.43.0


From 731fe207700ca24a67e35fbb6040584d750663dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 08/55] fix: iterator_on_tick completes when exhausted, stops
 after an unsubscription made while emitting and cancels its work on early
 close

---
 .../src/iterator_on_tick_subscription.rs      | 58 +++++++++++++------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
index 76592c0..1a6e18d 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
@@ -3,7 +3,7 @@ use std::{iter::Peekable, marker::PhantomData};
 use rx_core_common::{
 	Never, PhantomInvariant, RxObserver, Scheduler, SchedulerHandle,
 	SchedulerScheduleWorkExtension, SharedSubscriber, Signal, Subscriber, SubscriptionLike,
-	WorkCancellationId, WorkResult,
+	TeardownCollectionExtension, WorkCancellationId, WorkResult,
 };
 use rx_core_macro_subscription_derive::RxSubscription;
 
@@ -43,7 +43,7 @@ where
 	Iterator: IntoIterator,
 	Iterator::Item: Signal,
 	Iterator::IntoIter: 'static + Send + Sync,
-	S: Scheduler,
+	S: 'static + Scheduler,
 {
 	pub fn new(
 		destination: Destination,
@@ -64,10 +64,23 @@ where
 			};
 		}
 
-		if options.start_on_subscribe
-			&& let Some(next) = peekable_iterator.next()
-		{
-			destination.next(next);
+		if options.start_on_subscribe {
+			if let Some(next) = peekable_iterator.next() {
+				destination.next(next);
+			}
+
+			if !destination.is_closed() && peekable_iterator.peek().is_none() {
+				destination.complete();
+			}
+
+			if destination.is_closed() {
+				return OnTickIteratorSubscription {
+					destination,
+					owner_id: None,
+					scheduler,
+					_phantom_data: PhantomData,
+				};
+			}
 		}
 
 		let owner_id = {
@@ -85,24 +98,30 @@ where
 				move |_, _context| {
 					state.observed_ticks += 1;
 
-					let mut destination = state.destination.lock();
-					if destination.is_closed() {
+					if state.destination.is_closed() {
 						return WorkResult::Done;
 					}
 
-					if state
+					if !state
 						.observed_ticks
 						.is_multiple_of(state.emit_at_every_nth_tick)
-						&& let Some(value) = state.peekable_iterator.next()
 					{
-						state.observed_ticks = 0;
-						destination.next(value);
-						if state.peekable_iterator.peek().is_none() {
-							destination.complete();
-							WorkResult::Done
-						} else {
-							WorkResult::Pending
+						return WorkResult::Pending;
+					}
+
+					state.observed_ticks = 0;
+
+					if let Some(value) = state.peekable_iterator.next() {
+						state.destination.next(value);
+
+						if state.destination.is_closed() {
+							return WorkResult::Done;
 						}
+					}
+
+					if state.peekable_iterator.peek().is_none() {
+						state.destination.complete();
+						WorkResult::Done
 					} else {
 						WorkResult::Pending
 					}
@@ -113,6 +132,11 @@ where
 			owner_id
 		};
 
+		let scheduler_clone = scheduler.clone();
+		destination.add_fn(move || {
+			scheduler_clone.lock().cancel(owner_id);
+		});
+
 		OnTickIteratorSubscription {
 			destination,
 			scheduler,
-- 
2.43.0


From 246594f3104d849c4458a5e2904362beaddfdab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 09/55] fix: cancelling an invoked work does not drop the
 pending invocations of other works

---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 7e22a44..74278b1 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -173,7 +173,7 @@ where
 				ScheduledWorkAction::CancelInvoked(cancelled_invocation_id) => {
 					self.invokable_work.remove(&cancelled_invocation_id);
 					self.invoked
-						.retain(|invoked_id| invoked_id == &cancelled_invocation_id);
+						.retain(|invoked_id| invoked_id != &cancelled_invocation_id);
 				}
 				ScheduledWorkAction::Cancel(cancelled_id) => {
 					if let Some(work_ids) = self.cancellation_map.remove(&cancelled_id) {
-- 
2.43.0


From 60816a71b628b4d2171ea8850d6ea2cfdce9ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 10/55] fix: ticking to a point in the past does not hand an
 earlier time to works

---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 74278b1..94e208f 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -111,7 +111,9 @@ where
 	}
 
 	pub fn tick_to(&mut self, tick: Tick, context: &mut C::Item<'_>) {
+		// Ticking to a point in the past must not let works see time run backwards
 		self.current_tick.update(tick);
+		let tick = self.current_tick;
 		self.already_ticked.clear();
 
 		// It should almost always finish in 1-2 loops, but in case something
-- 
2.43.0


From 2c23013915867f394dd9fbb98c1561bfcd525fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:46 +0000
Subject: [PATCH 11/55] fix: repeated work with a zero interval does not loop
 forever

---
 .../src/work/ticked_work_repeating.rs                       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
index ed0695a..9b98596 100644
--- a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
+++ b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
@@ -93,6 +93,12 @@ where
 				self.start_immediately = false;
 			}
 			executions += 1;
+
+			// A zero interval never consumes the elapsed time, the work is only
+			// bound by how much of it is allowed per tick
+			if self.interval.is_zero() && executions >= self.max_work_per_tick.into() {
+				break;
+			}
 		}
 		work_result
 	}
-- 
2.43.0


From 35be2514ac5489ad86747fb3c43f985b953df59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:31 +0000
Subject: [PATCH 12/55] fix: throttle_time emits the pending trailing value
 when a tick passes the end of the window

---
 .../src/throttle_time_subscriber.rs                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 381f2f4..2711033 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -96,7 +96,7 @@ where
 						return WorkResult::Pending;
 					}
 
-					if deadline < state.last_tick_time {
+					if deadline < state.last_tick_time && !state.has_pending_trailing(options) {
 						state.throttle_deadline = None;
 
 						(
-- 
2.43.0


From ae493f7cfe91c91c21a5d16f3d69ea713e42188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:47 +0000
Subject: [PATCH 13/55] fix: throttle_time does not hold its lock while
 emitting and schedules nothing for a closed destination

---
 .../src/throttle_time_subscriber.rs               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 2711033..59f5e35 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -162,15 +162,16 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let was_idle = {
+		let (was_idle, leading) = {
 			let mut state = self.state.lock_ignore_poison();
 			let was_idle = state.throttle_deadline.is_none();
+			let mut leading = None;
 			match state.throttle_deadline {
 				None => {
 					// Idle
 					state.throttle_deadline = Some(state.last_tick_time + self.options.duration);
 					if self.options.output_behavior.emits_leading() {
-						self.destination.next(next);
+						leading = Some(next);
 					} else if self.options.output_behavior.emits_trailing() {
 						state.last_value = Some(next);
 					};
@@ -191,10 +192,16 @@ where
 					state.last_value = Some(next);
 				}
 			};
-			was_idle
+			(was_idle, leading)
 		};
 
-		if was_idle {
+		// The state must not be locked while the destination is notified, and
+		// there is nothing to throttle if that has closed it.
+		if let Some(leading) = leading {
+			self.destination.next(leading);
+		}
+
+		if was_idle && !self.destination.is_closed() {
 			self.schedule_throttle_work();
 		}
 	}
-- 
2.43.0


From 710de15f5cff560c6c21a7249b1360912f8e2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:38 +0000
Subject: [PATCH 14/55] fix: fallback_when_silent stops its work once its
 destination is closed

---
 .../src/fallback_when_silent_subscriber.rs                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
index 75c037f..f883400 100644
--- a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
+++ b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
@@ -67,6 +67,10 @@ where
 		let mut index = 0;
 		scheduler.schedule_continuous_work(
 			move |tick, context| {
+				if shared_destination_clone.is_closed() {
+					return WorkResult::Done;
+				}
+
 				let observed_next = {
 					let mut state = shared_state_clone.lock().unwrap_or_else(|a| a.into_inner());
 					state.next_observed_this_tick.take()
@@ -76,6 +80,10 @@ where
 				index += 1;
 				shared_destination_clone.next(next);
 
+				if shared_destination_clone.is_closed() {
+					return WorkResult::Done;
+				}
+
 				WorkResult::Pending
 			},
 			cancellation_id,
-- 
2.43.0


From 9f54fae4138c107db15073a04096b3b478ee2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:12 +0000
Subject: [PATCH 15/55] fix: throttle_time does not panic when it is closed
 earlier in the same tick its work runs

---
 .../src/throttle_time_subscriber.rs                        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 59f5e35..9edbf69 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -88,9 +88,10 @@ where
 					let mut state = state.lock_ignore_poison();
 					state.last_tick_time = tick.now();
 
-					let deadline = state
-						.throttle_deadline
-						.expect("scheduled work always has an active throttle deadline");
+					// Closed earlier in this same tick, the cancellation is still queued.
+					let Some(deadline) = state.throttle_deadline else {
+						return WorkResult::Done;
+					};
 
 					if state.last_tick_time < deadline {
 						return WorkResult::Pending;
-- 
2.43.0


From d2aae54d0b80a566e8320ac258b9891d1914405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 16/55] fix: adsr applies a terminal sent while it is emitting
 before its next emission

---
 crates/rx_core_operator_adsr/src/adsr_subscriber.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
index 669b5b5..8f233e1 100644
--- a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
+++ b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
@@ -58,7 +58,7 @@ where
 			options,
 		}));
 		let shared_state_clone = shared_state.clone();
-		let shared_destination_clone = shared_destination.clone();
+		let mut shared_destination_clone = shared_destination.clone();
 		let scheduler_clone = scheduler.clone();
 		let mut scheduler_lock = scheduler_clone.lock();
 		let cancellation_id = scheduler_lock.generate_cancellation_id();
@@ -66,8 +66,7 @@ where
 		let mut envelope_state = AdsrEnvelopeState::default();
 		scheduler_lock.schedule_continuous_work(
 			move |tick, _context| {
-				let mut destination_lock = shared_destination_clone.lock();
-				if destination_lock.is_closed() {
+				if shared_destination_clone.is_closed() {
 					return WorkResult::Done;
 				}
 
@@ -110,8 +109,8 @@ where
 				};
 
 				if let Some(next) = next {
-					destination_lock.next(next);
-					if destination_lock.is_closed() {
+					shared_destination_clone.next(next);
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 				}
-- 
2.43.0


From cb794ed832e830da8975c46094558fc0e448fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 17/55] fix: teardowns added to a subscription closed through
 its destination are run

---
 crates/rx_core_common/src/subscriptions/subscription.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription.rs b/crates/rx_core_common/src/subscriptions/subscription.rs
index 4375377..f1e74f5 100644
--- a/crates/rx_core_common/src/subscriptions/subscription.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription.rs
@@ -1,6 +1,6 @@
 use rx_core_macro_subscription_derive::RxSubscription;
 
-use crate::{Subscriber, SubscriptionData};
+use crate::Subscriber;
 
 #[derive(RxSubscription)]
 #[_rx_core_common_crate(crate)]
@@ -10,8 +10,6 @@ pub struct Subscription<Destination>
 where
 	Destination: Subscriber,
 {
-	#[teardown]
-	teardown: SubscriptionData,
 	#[destination]
 	destination: Destination,
 }
@@ -21,9 +19,6 @@ where
 	Destination: Subscriber,
 {
 	pub fn new(destination: Destination) -> Self {
-		Self {
-			destination,
-			teardown: SubscriptionData::default(),
-		}
+		Self { destination }
 	}
 }
-- 
2.43.0


From d00ee5dd3f4d73c3b63b55d82b3673c95df8611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 18/55] fix: dropping the subscription of a create observable
 unsubscribes it

---
 crates/rx_core_observable_create/src/create_observable.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_observable_create/src/create_observable.rs b/crates/rx_core_observable_create/src/create_observable.rs
index 8c950db..63ff742 100644
--- a/crates/rx_core_observable_create/src/create_observable.rs
+++ b/crates/rx_core_observable_create/src/create_observable.rs
@@ -1,8 +1,7 @@
 use core::marker::PhantomData;
 
 use rx_core_common::{
-	Never, Observable, PhantomInvariant, SharedSubscription, Signal, Subscriber,
-	SubscriptionLikeExtensionIntoShared, UpgradeableObserver,
+	Never, Observable, PhantomInvariant, Signal, Subscriber, Subscription, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
 
@@ -44,7 +43,7 @@ where
 	Producer: Clone + FnOnce(&mut dyn Subscriber<In = Out, InError = OutError>),
 {
 	type Subscription<Destination>
-		= SharedSubscription
+		= Subscription<Destination>
 	where
 		Destination: 'static + rx_core_common::Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -58,6 +57,6 @@ where
 	{
 		let mut destination = observer.upgrade();
 		(self.producer.clone())(&mut destination);
-		destination.into_shared()
+		Subscription::new(destination)
 	}
 }
-- 
2.43.0


From b09e277054d799936e8034ea8e1c2c20ed047c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 19/55] fix: take does not complete or error its destination
 again once it is closed

---
 crates/rx_core_operator_take/src/take_subscriber.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_take/src/take_subscriber.rs b/crates/rx_core_operator_take/src/take_subscriber.rs
index bd8a50d..696df55 100644
--- a/crates/rx_core_operator_take/src/take_subscriber.rs
+++ b/crates/rx_core_operator_take/src/take_subscriber.rs
@@ -53,14 +53,18 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
-		self.closed.close();
+		if !self.is_closed() {
+			self.destination.error(error);
+			self.closed.close();
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.complete();
-		self.closed.close();
+		if !self.is_closed() {
+			self.destination.complete();
+			self.closed.close();
+		}
 	}
 }
 
-- 
2.43.0


From 34acf730ee75f90aa8253c86effac8506a46193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 20/55] fix: observe_on does not replace an error sent while it
 is emitting with an unsubscription

---
 crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 19c255e..1680c81 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -96,7 +96,6 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 		self.destination.error(error);
 	}
 
-- 
2.43.0


From 8b8266ec442b60010c7e513cefa5a48756fe2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:41 +0000
Subject: [PATCH 21/55] fix: adsr and fallback_when_silent cancel their work
 when their destination closes

---
 .../rx_core_operator_adsr/src/adsr_subscriber.rs   | 14 ++++++++++----
 .../src/fallback_when_silent_subscriber.rs         | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
index 8f233e1..d936e28 100644
--- a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
+++ b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
@@ -6,8 +6,8 @@ use std::{
 
 use rx_core_common::{
 	PhantomInvariant, RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension,
-	SharedSubscriber, Signal, Subscriber, SubscriptionLike, WorkCancellationId, WorkResult,
-	WorkTick,
+	SharedSubscriber, Signal, Subscriber, SubscriptionLike, Teardown, TeardownCollection,
+	WorkCancellationId, WorkResult, WorkTick,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -44,14 +44,14 @@ impl<InError, Destination, S> AdsrSubscriber<InError, Destination, S>
 where
 	InError: Signal,
 	Destination: 'static + Subscriber<In = AdsrSignal, InError = InError>,
-	S: Scheduler,
+	S: 'static + Scheduler,
 {
 	pub fn new(
 		destination: Destination,
 		options: AdsrOperatorOptions,
 		scheduler: SchedulerHandle<S>,
 	) -> Self {
-		let shared_destination = SharedSubscriber::new(destination);
+		let mut shared_destination = SharedSubscriber::new(destination);
 		let shared_state = Arc::new(Mutex::new(AdsrEnvelopeSharedState {
 			is_getting_activated: false,
 			last_signal_was_none: false,
@@ -119,6 +119,12 @@ where
 			},
 			cancellation_id,
 		);
+		drop(scheduler_lock);
+
+		shared_destination.add_teardown(Teardown::new_work_cancellation(
+			cancellation_id,
+			scheduler.clone(),
+		));
 
 		Self {
 			shared_destination,
diff --git a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
index f883400..5e20a17 100644
--- a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
+++ b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
@@ -3,8 +3,8 @@ use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
 	PhantomInvariant, RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension,
-	SharedSubscriber, Signal, Subscriber, SubscriptionLike, WorkCancellationId,
-	WorkContextProvider, WorkResult,
+	SharedSubscriber, Signal, Subscriber, SubscriptionLike, Teardown, TeardownCollection,
+	WorkCancellationId, WorkContextProvider, WorkResult,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -45,14 +45,14 @@ where
 		+ Send
 		+ Sync,
 	Destination: 'static + Subscriber<In = In, InError = InError>,
-	S: Scheduler,
+	S: 'static + Scheduler,
 {
 	pub fn new(
 		destination: Destination,
 		fallback: Fallback,
 		scheduler_handle: SchedulerHandle<S>,
 	) -> Self {
-		let shared_destination = SharedSubscriber::new(destination);
+		let mut shared_destination = SharedSubscriber::new(destination);
 		let state = Arc::new(Mutex::new(FallbackWhenSilentSubscriberState {
 			next_observed_this_tick: None,
 		}));
@@ -88,6 +88,12 @@ where
 			},
 			cancellation_id,
 		);
+		drop(scheduler);
+
+		shared_destination.add_teardown(Teardown::new_work_cancellation(
+			cancellation_id,
+			scheduler_clone.clone(),
+		));
 
 		Self {
 			shared_destination,
-- 
2.43.0


From 1915cdd9378857979d0d62d24a77d1536bc45a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 22/55] fix: switch and exhaust release the outer and the inner
 subscription when their destination closes

---
 .../src/exhaust_subscriber.rs                 | 57 ++++++++++++------
 .../src/switch_subscriber.rs                  | 58 +++++++++++++------
 2 files changed, 79 insertions(+), 36 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 78ecd64..ae9af5f 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -6,7 +6,7 @@ use std::{
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
@@ -26,7 +26,7 @@ where
 	outer_teardown: SharedSubscription,
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
-	inner_subscription: Option<SubscriptionData>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
 
@@ -37,11 +37,28 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination) -> Self {
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let inner_subscription = Arc::new(Mutex::new(None::<SubscriptionData>));
+		let mut outer_teardown = SharedSubscription::default();
+
+		let inner_subscription_on_unsubscribe = inner_subscription.clone();
+		outer_teardown.add_fn(move || {
+			let inner_subscription = inner_subscription_on_unsubscribe
+				.lock_ignore_poison()
+				.take();
+
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
+		});
+
+		shared_destination.add(outer_teardown.clone());
+
 		Self {
-			outer_teardown: SharedSubscription::default(),
-			shared_destination: SharedSubscriber::new(destination),
+			outer_teardown,
+			shared_destination,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
-			inner_subscription: None,
+			inner_subscription,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -61,7 +78,8 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
+			let previous_inner_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = previous_inner_subscription {
 				inner_subscription.unsubscribe();
 			}
 
@@ -76,10 +94,14 @@ where
 				self.state.clone(),
 				move |_| {},
 				move |_| {
-					if state_on_unsubscribe_clone
-						.lock_ignore_poison()
-						.can_downstream_unsubscribe()
-					{
+					let can_unsubscribe = {
+						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						state.can_downstream_unsubscribe()
+							&& !state.upstream_subscriber_state.is_errored()
+							&& !state.downstream_subscriber_state.is_errored()
+					};
+
+					if can_unsubscribe {
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
 						shared_destination_on_unsubscribe.unsubscribe();
 					}
@@ -87,8 +109,13 @@ where
 			));
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
-					Some(SubscriptionData::new_with_teardown(subscription.into()));
+				let mut subscription = SubscriptionData::new_with_teardown(subscription.into());
+
+				if self.is_closed() {
+					subscription.unsubscribe();
+				} else {
+					*self.inner_subscription.lock_ignore_poison() = Some(subscription);
+				}
 			}
 		}
 	}
@@ -124,15 +151,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.shared_destination.is_closed() || self.outer_teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
 		if !self.is_closed() {
-			if let Some(subscription_handle) = &mut self.inner_subscription {
-				subscription_handle.unsubscribe();
-			};
-
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 		}
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index e19c081..7b31cee 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -8,7 +8,7 @@ use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
 	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	TeardownCollection, TeardownCollectionExtension,
 };
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
 
@@ -24,7 +24,7 @@ where
 {
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
-	inner_subscription: Option<SubscriptionData>,
+	inner_subscription: Arc<Mutex<Option<SubscriptionData>>>,
 	outer_teardown: SharedSubscription,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -36,11 +36,28 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination) -> Self {
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let inner_subscription = Arc::new(Mutex::new(None::<SubscriptionData>));
+		let mut outer_teardown = SharedSubscription::default();
+
+		let inner_subscription_on_unsubscribe = inner_subscription.clone();
+		outer_teardown.add_fn(move || {
+			let inner_subscription = inner_subscription_on_unsubscribe
+				.lock_ignore_poison()
+				.take();
+
+			if let Some(mut inner_subscription) = inner_subscription {
+				inner_subscription.unsubscribe();
+			}
+		});
+
+		shared_destination.add(outer_teardown.clone());
+
 		Self {
-			outer_teardown: SharedSubscription::default(),
-			shared_destination: SharedSubscriber::new(destination),
+			outer_teardown,
+			shared_destination,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
-			inner_subscription: None,
+			inner_subscription,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -59,7 +76,8 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
+			let previous_inner_subscription = self.inner_subscription.lock_ignore_poison().take();
+			if let Some(mut inner_subscription) = previous_inner_subscription {
 				inner_subscription.unsubscribe();
 			}
 
@@ -73,10 +91,14 @@ where
 				self.state.clone(),
 				move |_| {},
 				move |_| {
-					if state_on_unsubscribe_clone
-						.lock_ignore_poison()
-						.can_downstream_unsubscribe()
-					{
+					let can_unsubscribe = {
+						let mut state = state_on_unsubscribe_clone.lock_ignore_poison();
+						state.can_downstream_unsubscribe()
+							&& !state.upstream_subscriber_state.is_errored()
+							&& !state.downstream_subscriber_state.is_errored()
+					};
+
+					if can_unsubscribe {
 						outer_teardown_on_unsubscribe_clone.unsubscribe();
 						shared_destination_on_unsubscribe_clone.unsubscribe();
 					}
@@ -84,12 +106,13 @@ where
 			));
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
-					Some(SubscriptionData::new_with_teardown(subscription.into()));
-			}
+				let mut subscription = SubscriptionData::new_with_teardown(subscription.into());
 
-			if self.shared_destination.is_closed() {
-				self.unsubscribe();
+				if self.is_closed() {
+					subscription.unsubscribe();
+				} else {
+					*self.inner_subscription.lock_ignore_poison() = Some(subscription);
+				}
 			}
 		}
 	}
@@ -141,16 +164,13 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.shared_destination.is_closed() || self.outer_teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
 		if !self.is_closed() {
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
-			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-				subscription_handle.unsubscribe();
-			};
 		}
 	}
 }
-- 
2.43.0


From 0d7dce77676dadd0cf9b9c91f4957b535ef93613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 23/55] fix: concurrent flattening starts the next queued inner
 observable whenever one is unsubscribed

---
 .../src/concurrent_subscriber.rs              | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 4c13b47..436686b 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -125,7 +125,6 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 
 	let inner_subscriptions_clone = inner_subscriptions.clone();
 
-	let concurrency_limit_minus_one: usize = usize::from(concurrency_limit) - 1;
 	let outer_teardown_on_complete_clone = outer_teardown.clone();
 	let mut outer_teardown_on_unsubscribe = outer_teardown.clone();
 	let mut shared_destination_on_unsubscribe = shared_destination.clone();
@@ -143,22 +142,14 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 				concurrency_limit,
 			);
 		},
-		move |key| {
-			let no_more_subscribers_besides_this = {
-				let mut inner_subscriptions = inner_subscriptions.lock_ignore_poison();
-				inner_subscriptions.retain(|_k, s| !s.is_closed());
-				inner_subscriptions
-					.iter()
-					.filter(|(k, _)| *k != key)
-					.count() == concurrency_limit_minus_one
+		move |_key| {
+			let is_there_a_free_place = {
+				let state_lock = state.lock_ignore_poison();
+				state_lock.non_completed_subscriptions < usize::from(concurrency_limit)
+					&& !state_lock.downstream_subscriber_state.is_closed()
 			};
 
-			if no_more_subscribers_besides_this
-				&& !state
-					.lock_ignore_poison()
-					.downstream_subscriber_state
-					.is_closed()
-			{
+			if is_there_a_free_place {
 				subscribe_to_next_in_queue(
 					state.clone(),
 					inner_subscriptions.clone(),
-- 
2.43.0


From d6af24863423905a1be349d062227e96635b1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:47 +0000
Subject: [PATCH 24/55] fix: concurrent flattening does not subscribe to what
 is still queued when it is unsubscribed

---
 .../src/concurrent_subscriber.rs                      | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 436686b..6c9469c 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -38,7 +38,9 @@ where
 {
 	pub fn new(destination: Destination, concurrency_limit: NonZero<usize>) -> Self {
 		let mut shared_destination = SharedSubscriber::new(destination);
-		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::default()));
+		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::<
+			ConcurrentSubscriberQueue<InnerObservable>,
+		>::default()));
 		let inner_subscriptions = Arc::new(Mutex::new(Slab::<SubscriptionData>::new()));
 		let mut outer_teardown = SharedSubscription::default();
 
@@ -46,6 +48,13 @@ where
 		let state_on_unsubscribe = state.clone();
 
 		outer_teardown.add_fn(move || {
+			// Nothing that's still waiting may be subscribed to anymore.
+			let waiting = {
+				let mut state = state_on_unsubscribe.lock_ignore_poison();
+				std::mem::take(&mut state.state.queue)
+			};
+			drop(waiting);
+
 			let inner_subscriptions = inner_subscriptions_on_unsubscribe
 				.lock_ignore_poison()
 				.drain()
-- 
2.43.0


From 909f8c8e7f8632021b44fb7010f2ac44407a8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:03 +0000
Subject: [PATCH 25/55] fix: dropping the subscription of a merge or concat
 observable unsubscribes it

---
 .../src/concat_observable.rs                  | 26 ++++++++++++-------
 .../src/merge_observable.rs                   | 26 ++++++++++++-------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/crates/rx_core_observable_concat/src/concat_observable.rs b/crates/rx_core_observable_concat/src/concat_observable.rs
index c430061..f904bfc 100644
--- a/crates/rx_core_observable_concat/src/concat_observable.rs
+++ b/crates/rx_core_observable_concat/src/concat_observable.rs
@@ -2,8 +2,7 @@ use core::{marker::PhantomData, num::NonZero};
 
 use rx_core_common::{
 	ErasedObservable, ErasedObservables, Never, NeverMapIntoExtension, Observable,
-	PhantomInvariant, RxObserver, SharedSubscription, Signal, Subscriber, TeardownCollection,
-	TeardownCollectionExtension, UpgradeableObserver,
+	PhantomInvariant, RxObserver, Signal, Subscriber, Subscription, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_subscriber_higher_order_all::HigherOrderAllSubscriber;
@@ -40,7 +39,15 @@ where
 	OutError: Signal,
 {
 	type Subscription<Destination>
-		= SharedSubscription
+		= Subscription<
+		HigherOrderAllSubscriber<
+			ErasedObservable<Out, OutError>,
+			Never,
+			ConcurrentSubscriberProvider,
+			fn(Never) -> OutError,
+			Destination,
+		>,
+	>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -57,18 +64,19 @@ where
 			ErasedObservable<Out, OutError>,
 			Never,
 			ConcurrentSubscriberProvider,
-			_,
+			fn(Never) -> OutError,
 			<Destination as UpgradeableObserver>::Upgraded,
-		>::new(destination, Never::map_into(), NonZero::<usize>::MIN);
+		>::new(
+			destination,
+			|error| Never::map_into()(error),
+			NonZero::<usize>::MIN,
+		);
 
 		for next_observable in self.observables.iter().cloned() {
 			concat_subscriber.next(next_observable);
 		}
 		concat_subscriber.complete();
 
-		let mut subscription = SharedSubscription::default();
-		concat_subscriber.add(subscription.clone());
-		subscription.add_teardown(concat_subscriber.into());
-		subscription
+		Subscription::new(concat_subscriber)
 	}
 }
diff --git a/crates/rx_core_observable_merge/src/merge_observable.rs b/crates/rx_core_observable_merge/src/merge_observable.rs
index e3ebdc0..6fe3539 100644
--- a/crates/rx_core_observable_merge/src/merge_observable.rs
+++ b/crates/rx_core_observable_merge/src/merge_observable.rs
@@ -2,8 +2,7 @@ use core::{marker::PhantomData, num::NonZero};
 
 use rx_core_common::{
 	ErasedObservable, ErasedObservables, Never, NeverMapIntoExtension, Observable,
-	PhantomInvariant, RxObserver, SharedSubscription, Signal, Subscriber, TeardownCollection,
-	TeardownCollectionExtension, UpgradeableObserver,
+	PhantomInvariant, RxObserver, Signal, Subscriber, Subscription, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_subscriber_higher_order_all::HigherOrderAllSubscriber;
@@ -45,7 +44,15 @@ where
 	OutError: Signal,
 {
 	type Subscription<Destination>
-		= SharedSubscription
+		= Subscription<
+		HigherOrderAllSubscriber<
+			ErasedObservable<Out, OutError>,
+			Never,
+			ConcurrentSubscriberProvider,
+			fn(Never) -> OutError,
+			Destination,
+		>,
+	>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -62,18 +69,19 @@ where
 			ErasedObservable<Out, OutError>,
 			Never,
 			ConcurrentSubscriberProvider,
-			_,
+			fn(Never) -> OutError,
 			<Destination as UpgradeableObserver>::Upgraded,
-		>::new(destination, Never::map_into(), self.concurrency_limit);
+		>::new(
+			destination,
+			|error| Never::map_into()(error),
+			self.concurrency_limit,
+		);
 
 		for next_observable in self.observables.iter().cloned() {
 			concat_subscriber.next(next_observable);
 		}
 		concat_subscriber.complete();
 
-		let mut subscription = SharedSubscription::default();
-		concat_subscriber.add(subscription.clone());
-		subscription.add_teardown(concat_subscriber.into());
-		subscription
+		Subscription::new(concat_subscriber)
 	}
 }
-- 
2.43.0


From bc4b05b71b4b38d29b90805431469b15cb4a5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:30 +0000
Subject: [PATCH 26/55] fix: a second inner observable failing while the first
 error is delivered does not panic

---
 .../src/higher_order_subscriber_state.rs                      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
index 827bcac..33c2b1c 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
@@ -116,6 +116,8 @@ where
 
 	pub fn downstream_error(&mut self) {
 		self.state.on_downstream_error();
-		self.downstream_subscriber_state.error();
+		if !self.downstream_subscriber_state.is_closed() {
+			self.downstream_subscriber_state.error();
+		}
 	}
 }
-- 
2.43.0


From d698b63f84df70be8e33e4cf01a130b1d49dcae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:27 +0000
Subject: [PATCH 27/55] fix: dropping the subscription of a combining
 observable unsubscribes it

---
 .../src/combine_changes_observable.rs                    | 9 +++++----
 .../src/combine_latest_observable.rs                     | 9 +++++----
 crates/rx_core_observable_join/src/join_observable.rs    | 9 +++++----
 crates/rx_core_observable_zip/src/zip_observable.rs      | 9 +++++----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/rx_core_observable_combine_changes/src/combine_changes_observable.rs b/crates/rx_core_observable_combine_changes/src/combine_changes_observable.rs
index 4943441..0361f57 100644
--- a/crates/rx_core_observable_combine_changes/src/combine_changes_observable.rs
+++ b/crates/rx_core_observable_combine_changes/src/combine_changes_observable.rs
@@ -1,6 +1,6 @@
 use rx_core_common::{
-	Observable, SharedSubscriber, SharedSubscription, Subscriber, TeardownCollection,
-	TeardownCollectionExtension, UpgradeableObserver,
+	Observable, OptionSubscription, SharedSubscriber, SharedSubscription, Subscriber,
+	TeardownCollection, TeardownCollectionExtension, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_notification_variadics::{
@@ -49,7 +49,7 @@ where
 	O2::OutError: Into<O1::OutError>,
 {
 	type Subscription<Destination>
-		= SharedSubscription
+		= OptionSubscription<SharedSubscription>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -83,6 +83,7 @@ where
 		shared_subscriber.add(subscription.clone());
 		subscription.add_teardown(s1.into());
 		subscription.add_teardown(s2.into());
-		subscription
+		// The destination keeps a clone, which must not outlive what's returned here
+		OptionSubscription::new(Some(subscription))
 	}
 }
diff --git a/crates/rx_core_observable_combine_latest/src/combine_latest_observable.rs b/crates/rx_core_observable_combine_latest/src/combine_latest_observable.rs
index aedc08c..5dec78c 100644
--- a/crates/rx_core_observable_combine_latest/src/combine_latest_observable.rs
+++ b/crates/rx_core_observable_combine_latest/src/combine_latest_observable.rs
@@ -1,6 +1,6 @@
 use rx_core_common::{
-	Observable, SharedSubscriber, SharedSubscription, Subscriber, TeardownCollection,
-	TeardownCollectionExtension, UpgradeableObserver,
+	Observable, OptionSubscription, SharedSubscriber, SharedSubscription, Subscriber,
+	TeardownCollection, TeardownCollectionExtension, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_notification_variadics::{
@@ -49,7 +49,7 @@ where
 	O2::OutError: Into<O1::OutError>,
 {
 	type Subscription<Destination>
-		= SharedSubscription
+		= OptionSubscription<SharedSubscription>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -82,6 +82,7 @@ where
 		shared_subscriber.add(subscription.clone());
 		subscription.add_teardown(s1.into());
 		subscription.add_teardown(s2.into());
-		subscription
+		// The destination keeps a clone, which must not outlive what's returned here
+		OptionSubscription::new(Some(subscription))
 	}
 }
diff --git a/crates/rx_core_observable_join/src/join_observable.rs b/crates/rx_core_observable_join/src/join_observable.rs
index 6c246d6..1c61db3 100644
--- a/crates/rx_core_observable_join/src/join_observable.rs
+++ b/crates/rx_core_observable_join/src/join_observable.rs
@@ -1,6 +1,6 @@
 use rx_core_common::{
-	Observable, SharedSubscriber, SharedSubscription, Subscriber, TeardownCollection,
-	TeardownCollectionExtension, UpgradeableObserver,
+	Observable, OptionSubscription, SharedSubscriber, SharedSubscription, Subscriber,
+	TeardownCollection, TeardownCollectionExtension, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_notification_variadics::{
@@ -60,7 +60,7 @@ where
 	O2::OutError: Into<O1::OutError>,
 {
 	type Subscription<Destination>
-		= SharedSubscription
+		= OptionSubscription<SharedSubscription>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -93,6 +93,7 @@ where
 		shared_subscriber.add(subscription.clone());
 		subscription.add_teardown(s1.into());
 		subscription.add_teardown(s2.into());
-		subscription
+		// The destination keeps a clone, which must not outlive what's returned here
+		OptionSubscription::new(Some(subscription))
 	}
 }
diff --git a/crates/rx_core_observable_zip/src/zip_observable.rs b/crates/rx_core_observable_zip/src/zip_observable.rs
index 76d70dd..954898a 100644
--- a/crates/rx_core_observable_zip/src/zip_observable.rs
+++ b/crates/rx_core_observable_zip/src/zip_observable.rs
@@ -1,6 +1,6 @@
 use rx_core_common::{
-	Observable, SharedSubscriber, SharedSubscription, Subscriber, TeardownCollection,
-	TeardownCollectionExtension, UpgradeableObserver,
+	Observable, OptionSubscription, SharedSubscriber, SharedSubscription, Subscriber,
+	TeardownCollection, TeardownCollectionExtension, UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_notification_store::QueueOverflowOptions;
@@ -57,7 +57,7 @@ where
 	O2::OutError: Into<O1::OutError>,
 {
 	type Subscription<Destination>
-		= SharedSubscription
+		= OptionSubscription<SharedSubscription>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -94,6 +94,7 @@ where
 		shared_subscriber.add(subscription.clone());
 		subscription.add_teardown(s1.into());
 		subscription.add_teardown(s2.into());
-		subscription
+		// The destination keeps a clone, which must not outlive what's returned here
+		OptionSubscription::new(Some(subscription))
 	}
 }
-- 
2.43.0


From 3264e7017cd6ebe950832d9b1faf4c7927c93cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 28/55] fix: zip completes when one input is exhausted even if
 values of the other one are queued

---
 crates/rx_core_observable_zip/src/zip_subscriber.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index b8537d2..e2a58bf 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -76,19 +76,14 @@ where
 
 	fn try_complete(&mut self) {
 		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_completed() && self.o2_queue.is_completed())
-				|| (self.o1_queue.is_completed() && self.o2_queue.is_empty())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_completed()))
+			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
 			self.destination.complete();
 		}
 	}
 
 	fn try_unsubscribe(&mut self) {
-		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_closed() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_closed() && self.o2_queue.is_empty()))
+		if !self.destination.is_closed() && (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
 			self.destination.unsubscribe();
 		}
-- 
2.43.0


From 261647244b102661ed956848dc80c9e8a71ac2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 29/55] fix: combine_latest does not stay subscribed once an
 input is unsubscribed without ever emitting

---
 .../src/combine_latest_subscriber.rs                          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
index 159924b..6b0d740 100644
--- a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
+++ b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
@@ -81,8 +81,8 @@ where
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed()
 			&& ((self.o1_state.is_closed() && self.o2_state.is_closed())
-				|| (self.o1_state.is_waiting() && self.o2_state.is_closed_but_not_primed())
-				|| (self.o1_state.is_closed_but_not_primed() && self.o2_state.is_waiting()))
+				|| self.o1_state.is_closed_but_not_primed()
+				|| self.o2_state.is_closed_but_not_primed())
 		{
 			self.destination.unsubscribe();
 		}
-- 
2.43.0


From 708057ecf7a944f5b316da167fa60de16c75b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:51 +0000
Subject: [PATCH 30/55] fix: with_latest_from unsubscribes its inner observable
 whenever its destination closes

---
 .../src/with_latest_from_subscriber.rs              | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
index 1833da2..4a5a30b 100644
--- a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
+++ b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
@@ -4,8 +4,8 @@ use std::{
 };
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Observable, ObserverSubscriber, PhantomInvariant, RxObserver,
-	SharedSubscriber, Signal, Subscriber, SubscriptionLike,
+	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber, Signal,
+	Subscriber, SubscriptionLike, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -25,9 +25,6 @@ where
 {
 	#[destination]
 	destination: SharedSubscriber<Destination>,
-	inner_subscription: <InnerObservable as Observable>::Subscription<
-		ObserverSubscriber<WithLatestFromInnerDestination<InnerObservable::Out, Destination>>,
-	>,
 	state: Arc<Mutex<WithLatestFromInnerDestinationState<InnerObservable::Out>>>,
 	_phantom_data: PhantomInvariant<InnerObservable>,
 }
@@ -40,16 +37,17 @@ where
 	Destination: Subscriber<In = (In, InnerObservable::Out), InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination, inner_observable: &mut InnerObservable) -> Self {
-		let shared_destination = SharedSubscriber::new(destination);
+		let mut shared_destination = SharedSubscriber::new(destination);
 		let inner_destination =
 			WithLatestFromInnerDestination::<InnerObservable::Out, Destination>::new(
 				shared_destination.clone(),
 			);
 		let state = inner_destination.get_state();
 		let inner_subscription = inner_observable.subscribe(inner_destination);
+		// However the destination closes, the inner subscription must not outlive it
+		shared_destination.add(inner_subscription);
 		Self {
 			destination: shared_destination,
-			inner_subscription,
 			state,
 			_phantom_data: PhantomData,
 		}
@@ -98,7 +96,6 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		self.inner_subscription.unsubscribe();
 		self.destination.unsubscribe();
 	}
 }
-- 
2.43.0


From 2c89d7b174a2484856f54e19f01869458655cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:58 +0000
Subject: [PATCH 31/55] fix: a combined input reports closed once it finished,
 so nested combinations do not finish twice

---
 .../src/either_subscriber_2.rs                | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/crates/rx_core_notification_variadics/src/either_subscriber_2.rs b/crates/rx_core_notification_variadics/src/either_subscriber_2.rs
index 9a9375b..6c35022 100644
--- a/crates/rx_core_notification_variadics/src/either_subscriber_2.rs
+++ b/crates/rx_core_notification_variadics/src/either_subscriber_2.rs
@@ -23,6 +23,9 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// Signals are all forwarded as `next`s, the destination won't close when
+	/// this variant does.
+	is_closed: bool,
 	_phantom_data: PhantomInvariant<(O1, O2, VariantSelector)>,
 }
 
@@ -38,6 +41,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			is_closed: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -55,22 +59,30 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		self.destination
-			.next(VariantSelector::select(SubscriberNotification::Next(next)));
+		if !self.is_closed {
+			self.destination
+				.next(VariantSelector::select(SubscriberNotification::Next(next)));
+		}
 	}
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination
-			.next(VariantSelector::select(SubscriberNotification::Error(
-				error,
-			)));
+		if !self.is_closed {
+			self.is_closed = true;
+			self.destination
+				.next(VariantSelector::select(SubscriberNotification::Error(
+					error,
+				)));
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination
-			.next(VariantSelector::select(SubscriberNotification::Complete));
+		if !self.is_closed {
+			self.is_closed = true;
+			self.destination
+				.next(VariantSelector::select(SubscriberNotification::Complete));
+		}
 	}
 }
 
@@ -86,12 +98,15 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.destination.is_closed()
+		self.is_closed || self.destination.is_closed()
 	}
 
 	#[inline]
 	fn unsubscribe(&mut self) {
-		self.destination
-			.next(VariantSelector::select(SubscriberNotification::Unsubscribe));
+		if !self.is_closed {
+			self.is_closed = true;
+			self.destination
+				.next(VariantSelector::select(SubscriberNotification::Unsubscribe));
+		}
 	}
 }
-- 
2.43.0


From 513e6c5ef0f42634dc07c25730a48d8a421b51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 32/55] fix: catch releases its source and recovery whenever
 its destination closes

---
 .../src/catch_subscriber.rs                   | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index e15f27f..1d71594 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -3,8 +3,8 @@ use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Observable, PhantomInvariant, RxObserver, SharedSubscriber,
-	SharedSubscription, Signal, Subscriber, SubscriptionData, SubscriptionLike, Teardown,
-	TeardownCollection,
+	SharedSubscription, Signal, Subscriber, SubscriptionLike, Teardown, TeardownCollection,
+	TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 use rx_core_subscriber_higher_order::{HigherOrderInnerSubscriber, HigherOrderSubscriberState};
@@ -24,7 +24,6 @@ where
 	shared_destination: SharedSubscriber<Destination>,
 	state: Arc<Mutex<HigherOrderSubscriberState<()>>>,
 	error_mapper: Option<ErrorMapper>,
-	inner_subscription: Option<SubscriptionData>,
 	outer_teardown: SharedSubscription,
 	_phantom_data: PhantomInvariant<(In, InError)>,
 }
@@ -39,11 +38,16 @@ where
 	Destination: 'static + Subscriber<In = In, InError = InnerObservable::OutError>,
 {
 	pub fn new(destination: Destination, error_mapper: ErrorMapper) -> Self {
+		let mut shared_destination = SharedSubscriber::new(destination);
+		let outer_teardown = SharedSubscription::default();
+
+		// When downstream closes on its own, everything upstream has to be released too.
+		shared_destination.add(outer_teardown.clone());
+
 		Self {
-			shared_destination: SharedSubscriber::new(destination),
+			shared_destination,
 			error_mapper: Some(error_mapper),
-			inner_subscription: None,
-			outer_teardown: SharedSubscription::default(),
+			outer_teardown,
 			state: Arc::new(Mutex::new(HigherOrderSubscriberState::default())),
 			_phantom_data: PhantomData,
 		}
@@ -78,10 +82,6 @@ where
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
 
-			if let Some(mut inner_subscription) = self.inner_subscription.take() {
-				inner_subscription.unsubscribe();
-			}
-
 			let state_on_unsubscribe_clone = self.state.clone();
 			let mut outer_teardown_on_unsubscribe_clone = self.outer_teardown.clone();
 			let mut shared_destination_on_unsubscribe_clone = self.shared_destination.clone();
@@ -114,8 +114,7 @@ where
 			let subscription = next_observable.subscribe(higher_order_subscriber);
 
 			if !subscription.is_closed() {
-				self.inner_subscription =
-					Some(SubscriptionData::new_with_teardown(subscription.into()));
+				self.outer_teardown.add(subscription);
 			}
 
 			if self.shared_destination.is_closed() {
@@ -172,10 +171,6 @@ where
 
 	fn unsubscribe(&mut self) {
 		if !self.is_closed() {
-			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-				subscription_handle.unsubscribe();
-			};
-
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 		}
-- 
2.43.0


From 9c31dc087c31d18bdeecadc8a033711b74c850bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 33/55] fix: retry does not close a subscription whose last
 permitted attempt succeeded, and is unsubscribed when dropped or re-entrantly

---
 .../src/retry_observable.rs                    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 30cea51..84eef43 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -41,7 +41,7 @@ where
 	'o: 'static,
 {
 	type Subscription<Destination>
-		= SharedSubscription
+		= OptionSubscription<SharedSubscription>
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
@@ -55,6 +55,7 @@ where
 	{
 		let mut shared_destination = SharedSubscriber::new(destination.upgrade());
 		let mut outer_subscription = SharedSubscription::default();
+		outer_subscription.add(shared_destination.clone());
 
 		let mut immediate_retries = 0;
 
@@ -86,8 +87,9 @@ where
 			immediate_retries += 1;
 
 			if caught_error.lock_ignore_poison().is_some() {
-				if let Some(mut last_subscription) = last_subscription.lock_ignore_poison().take() {
-					last_subscription.unsubscribe();
+				let failed_subscription = last_subscription.lock_ignore_poison().take();
+				if let Some(mut failed_subscription) = failed_subscription {
+					failed_subscription.unsubscribe();
 				}
 				continue;
 			} else if shared_destination.is_closed() {
@@ -98,14 +100,14 @@ where
 			}
 		}
 
-		if immediate_retries > self.max_retries {
-			if let Some(error) = caught_error.lock_ignore_poison().take() {
-				shared_destination.error(error);
-			}
+		// Only ran out of retries if the last attempt failed too
+		let last_error = caught_error.lock_ignore_poison().take();
+		if let Some(error) = last_error {
+			shared_destination.error(error);
 			shared_destination.unsubscribe();
 			outer_subscription.unsubscribe();
 		}
 
-		outer_subscription.clone()
+		OptionSubscription::new(Some(outer_subscription))
 	}
 }
-- 
2.43.0


From dadd18958f505baefd369bdee088030a6defc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 34/55] fix: retry passes on the last failure and stops
 retrying once its destination is closed

---
 .../rx_core_operator_retry/src/retry_subscriber.rs  | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index b57c4ac..3f81b3f 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -56,7 +56,9 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
-		if let Some(mut last_subscription) = self.last_subscription.lock_ignore_poison().take()
+		// Unsubscribing runs teardowns that may reach back here, it must not be locked meanwhile
+		let last_subscription = self.last_subscription.lock_ignore_poison().take();
+		if let Some(mut last_subscription) = last_subscription
 			&& !last_subscription.is_closed()
 		{
 			last_subscription.unsubscribe();
@@ -92,7 +94,7 @@ where
 		}
 	}
 
-	fn error(&mut self, error: Self::InError) {
+	fn error(&mut self, mut error: Self::InError) {
 		// If the source is "stolen", it's still owned by the observables
 		// subscribe method. It will check the caught error and retry there.
 		if self.source.lock_ignore_poison().is_none() {
@@ -100,7 +102,7 @@ where
 			return;
 		};
 
-		while self.retries <= self.max_retries {
+		while self.retries <= self.max_retries && !self.destination.is_closed() {
 			let mut stolen_source = self.source.lock_ignore_poison().take().expect(SOURCE_STEAL);
 			self.reset();
 			self.retries += 1;
@@ -131,6 +133,11 @@ where
 			}
 		}
 
+		// When the retries failed too, it's the last failure that is passed on
+		if let Some(last_error) = self.caught_error.lock_ignore_poison().take() {
+			error = last_error;
+		}
+
 		self.finished_with = Some(ObserverTerminalNotification::Error(error));
 
 		if self.retries > self.max_retries {
-- 
2.43.0


From d6d85f0d119d838f09c61fdf3bc8f31f44124b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:55 +0000
Subject: [PATCH 35/55] fix: retry does not subscribe again once its
 destination closed while subscribing

---
 crates/rx_core_operator_retry/src/retry_observable.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 84eef43..2e1a374 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -91,6 +91,9 @@ where
 				if let Some(mut failed_subscription) = failed_subscription {
 					failed_subscription.unsubscribe();
 				}
+				if shared_destination.is_closed() {
+					break;
+				}
 				continue;
 			} else if shared_destination.is_closed() {
 				break;
-- 
2.43.0


From a87d29c52fc3e8db77dd53c493ef42fdfcadad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:26 +0000
Subject: [PATCH 36/55] fix: lift_result and dematerialize stay silent after
 the terminal they sent

---
 .../src/dematerialize_subscriber.rs               | 15 +++++++++++----
 .../src/lift_result_subscriber.rs                 | 13 ++++++++++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
index 37b17de..b894c35 100644
--- a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
+++ b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
@@ -12,6 +12,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// Downstream may recover from an error and stay open, nothing can follow it regardless.
+	finished: bool,
 }
 
 impl<Destination> DematerializeSubscriber<Destination>
@@ -19,7 +21,10 @@ where
 	Destination: Subscriber,
 {
 	pub fn new(destination: Destination) -> Self {
-		Self { destination }
+		Self {
+			destination,
+			finished: false,
+		}
 	}
 }
 
@@ -31,12 +36,13 @@ where
 	fn next(&mut self, notification: Self::In) {
 		match notification {
 			ObserverNotification::Next(next) => {
-				if !self.is_closed() {
+				if !self.finished && !self.is_closed() {
 					self.destination.next(next)
 				}
 			}
 			ObserverNotification::Error(error) => {
-				if !self.is_closed() {
+				if !self.finished && !self.is_closed() {
+					self.finished = true;
 					self.destination.error(error);
 				}
 			}
@@ -50,7 +56,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		if !self.is_closed() {
+		if !self.finished && !self.is_closed() {
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
diff --git a/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs b/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
index d5ce651..14ddef8 100644
--- a/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
+++ b/crates/rx_core_operator_lift_result/src/lift_result_subscriber.rs
@@ -17,6 +17,8 @@ where
 {
 	#[destination]
 	destination: Destination,
+	/// Downstream may recover from an error and stay open, nothing can follow it regardless.
+	finished: bool,
 	_phantom_data: PhantomInvariant<(ResultIn, ResultInError, InError)>,
 }
 
@@ -31,6 +33,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			finished: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -46,9 +49,14 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
+		if self.finished {
+			return;
+		}
+
 		match next {
 			Ok(next) => self.destination.next(next),
 			Err(error) => {
+				self.finished = true;
 				self.destination.error(error);
 			}
 		}
@@ -60,6 +68,9 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.complete();
+		if !self.finished {
+			self.finished = true;
+			self.destination.complete();
+		}
 	}
 }
-- 
2.43.0


From bdc3858bbc9bc98fb1cf3131c8a371510d084573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:15 +0000
Subject: [PATCH 37/55] fix: debounce_time keeps a value sent while it emits
 when its source then completes

---
 .../src/debounce_time_subscriber.rs               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index 9b1d943..a3e1c37 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -12,6 +12,8 @@ use rx_core_common::{
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
+const WORK_EMITTING: usize = usize::MAX;
+
 #[derive(RxSubscriber)]
 #[rx_in(Destination::In)]
 #[rx_in_error(Destination::InError)]
@@ -76,17 +78,22 @@ where
 		self.scheduled_work_counter.store(1, Ordering::Relaxed);
 		scheduler.schedule_delayed_work(
 			move |_, _| {
+				// Downstream may send new values while it's being notified, those
+				// schedule new work and overwrite this.
+				scheduled_work_counter.store(WORK_EMITTING, Ordering::Relaxed);
+
 				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
 
-				let previous_work_counter_before_sub =
-					scheduled_work_counter.swap(0, Ordering::Relaxed);
+				let nothing_else_is_scheduled = scheduled_work_counter
+					.compare_exchange(WORK_EMITTING, 0, Ordering::Relaxed, Ordering::Relaxed)
+					.is_ok();
 
 				// try complete
 				if upstream_completed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& nothing_else_is_scheduled
 					&& !destination.is_closed()
 				{
 					destination.complete();
@@ -95,7 +102,7 @@ where
 
 				// try unsubscribe
 				if upstream_unsubscribed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& nothing_else_is_scheduled
 					&& !destination.is_closed()
 				{
 					destination.unsubscribe();
-- 
2.43.0


From a06c534cb9bee2d50a9158eddcbe4567bedd5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:24 +0000
Subject: [PATCH 38/55] fix: asking a subject's subscription whether it is
 closed from its own notification does not deadlock

---
 .../src/multicast_subscription.rs             | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 4711b19..aa90bd7 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, TryLockError};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Never, Signal, Subscriber, SubscriptionLike, Teardown,
@@ -56,10 +56,11 @@ where
 
 	fn try_check_is_closed(&self) -> bool {
 		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
+			match subscriber.try_lock() {
+				Ok(subscriber) => subscriber.is_closed(),
+				Err(TryLockError::Poisoned(poison_error)) => poison_error.into_inner().is_closed(),
+				Err(TryLockError::WouldBlock) => false,
+			}
 		} else {
 			true
 		}
@@ -72,11 +73,9 @@ where
 	InError: Signal + Clone,
 {
 	fn is_closed(&self) -> bool {
-		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber.is_closed()
-		} else {
-			true
-		}
+		// A subscriber that is locked is being notified, it may be asked about
+		// from within that notification!
+		self.try_check_is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-- 
2.43.0


From fa8adce0f35c6b3299f956c5569afbd6d2c19426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:49 +0000
Subject: [PATCH 39/55] fix: a connectable's connections start clean, are
 replaced once finished, and are released outside of its locks

---
 .../src/connectable_observable.rs             | 35 ++++++++++--
 .../src/internal/connection.rs                | 14 +----
 .../src/internal/connection_state.rs          | 56 ++++++++++++++++++-
 .../src/internal/connector_state.rs           | 50 +++++++++--------
 .../src/share_observable.rs                   | 22 +++-----
 5 files changed, 121 insertions(+), 56 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 84ca99e..8b49f57 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -131,12 +131,37 @@ where
 	type ConnectionSubscription = ConnectionSubscription<Source, ConnectorProvider::Provided>;
 
 	fn connect(&mut self) -> ConnectionHandle<Self::ConnectionSubscription> {
-		self.connector.lock_ignore_poison().connect()
+		let (connection, replaced_connection) = self.connector.lock_ignore_poison().connect();
+
+		// Nothing is locked here, whatever is left of the previous connection
+		// may use this connectable as it's dropped
+		drop(replaced_connection);
+
+		let became_unwanted = self.connection_state.lock_ignore_poison().connected();
+		if became_unwanted {
+			self.disconnect();
+		}
+
+		connection
 	}
 
-	#[inline]
+	/// The connection is unsubscribed only once nothing is locked anymore, as
+	/// its teardowns may use this connectable.
 	fn disconnect(&mut self) -> bool {
-		self.connector.lock_ignore_poison().disconnect()
+		let connection_to_disconnect = {
+			let mut connection_state = self.connection_state.lock_ignore_poison();
+			connection_state.request_disconnect();
+			self.connection.lock_ignore_poison().take_connection()
+		};
+
+		if let Some(mut connection) = connection_to_disconnect
+			&& !connection.is_closed()
+		{
+			connection.unsubscribe();
+			return true;
+		}
+
+		false
 	}
 
 	#[inline]
@@ -146,7 +171,9 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
-		self.connector.lock_ignore_poison().reset();
+		self.disconnect();
+		let connector = self.connector.lock_ignore_poison().take_connector();
+		drop(connector);
 	}
 }
 
diff --git a/crates/rx_core_observable_connectable/src/internal/connection.rs b/crates/rx_core_observable_connectable/src/internal/connection.rs
index 18bfc65..f155397 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection.rs
@@ -15,17 +15,6 @@ impl<Subscription> Connection<Subscription>
 where
 	Subscription: SubscriptionWithTeardown,
 {
-	pub(crate) fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
-			&& !connection.is_closed()
-		{
-			connection.unsubscribe();
-			return true;
-		}
-
-		false
-	}
-
 	pub(crate) fn is_connected(&self) -> bool {
 		if let Some(connection) = self.connection.as_ref() {
 			!connection.is_closed()
@@ -34,11 +23,12 @@ where
 		}
 	}
 
+	/// The connection is expected to have been taken before, see
+	/// [Connection::take_connection]
 	pub(crate) fn register_connection(
 		&mut self,
 		connection: Subscription,
 	) -> ConnectionHandle<Subscription> {
-		self.disconnect();
 		let handle = ConnectionHandle::new(connection);
 		self.connection = Some(handle.clone());
 		handle
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_state.rs b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
index 32bb6dd..32106a2 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
@@ -10,6 +10,13 @@ pub(crate) struct ConnectionState {
 	downstream_subscriber_count: usize,
 	has_errored: bool,
 	has_completed: bool,
+	/// True while the source is being subscribed to, when there is no
+	/// connection that could be used or disconnected yet
+	is_connecting: bool,
+	/// A disconnect was asked for while there was no connection yet
+	disconnect_requested: bool,
+	/// The ref count dropped to zero while there was no connection yet
+	ref_count_dropped_to_zero: bool,
 	connection_options: ConnectionOptions,
 }
 
@@ -34,9 +41,49 @@ impl ConnectionState {
 			downstream_subscriber_count: 0,
 			has_completed: false,
 			has_errored: false,
+			is_connecting: false,
+			disconnect_requested: false,
+			ref_count_dropped_to_zero: false,
 		}
 	}
 
+	/// A new connection starts out with a clean slate.
+	pub(crate) fn connecting(&mut self) {
+		self.reset();
+		self.is_connecting = true;
+		self.disconnect_requested = false;
+		self.ref_count_dropped_to_zero = false;
+	}
+
+	/// Returns true if the connection that was just established has to be
+	/// disconnected, because it became unwanted while it was connecting.
+	pub(crate) fn connected(&mut self) -> bool {
+		self.is_connecting = false;
+
+		let became_unwanted = self.disconnect_requested
+			|| (self.ref_count_dropped_to_zero && self.downstream_subscriber_count == 0);
+
+		self.disconnect_requested = false;
+		self.ref_count_dropped_to_zero = false;
+
+		became_unwanted && !self.is_finished()
+	}
+
+	#[inline]
+	pub(crate) fn is_connecting(&self) -> bool {
+		self.is_connecting
+	}
+
+	/// The source of the connection had errored or completed
+	#[inline]
+	pub(crate) fn is_finished(&self) -> bool {
+		self.has_errored || self.has_completed
+	}
+
+	pub(crate) fn request_disconnect(&mut self) {
+		self.disconnect_requested = self.is_connecting;
+	}
+
 	#[inline]
 	pub(crate) fn errored(&mut self) {
 		self.has_errored = true;
@@ -55,10 +102,13 @@ impl ConnectionState {
 	/// ref count has just dropped to zero.
 	pub(crate) fn decrement_subscriber_count(&mut self) -> bool {
 		self.downstream_subscriber_count = self.downstream_subscriber_count.saturating_sub(1);
-		self.connection_options.disconnect_when_ref_count_zero
+		let should_disconnect = self.connection_options.disconnect_when_ref_count_zero
 			&& self.downstream_subscriber_count == 0
-			&& !self.has_errored
-			&& !self.has_completed
+			&& !self.is_finished();
+
+		self.ref_count_dropped_to_zero |= should_disconnect && self.is_connecting;
+
+		should_disconnect
 	}
 
 	pub(crate) fn reset(&mut self) {
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index b72b9cd..37467b3 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -110,33 +110,39 @@ where
 		))
 	}
 
-	pub(crate) fn register_connection(
-		&mut self,
-		connection: ConnectionSubscription<Source, ConnectorProvider::Provided>,
-	) -> ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>> {
-		self.connection
-			.lock_clear_poison()
-			.register_connection(connection)
-	}
-
+	/// Establishes a connection, unless there's already an active one.
+	///
+	/// Also returns the previous connection that was replaced, to be dropped
+	/// only once nothing is locked anymore.
+	#[allow(clippy::type_complexity)]
 	pub(crate) fn connect(
 		&mut self,
-	) -> ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>> {
-		let active_connection = self.connection.lock_ignore_poison().get_active_connection();
+	) -> (
+		ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>>,
+		Option<ConnectionHandle<ConnectionSubscription<Source, ConnectorProvider::Provided>>>,
+	) {
+		// A connection whose source is just finishing can't serve anyone new
+		let is_finished = self.connection_state.lock_ignore_poison().is_finished();
+
+		if !is_finished
+			&& let Some(active_connection) =
+				self.connection.lock_ignore_poison().get_active_connection()
+		{
+			return (active_connection, None);
+		}
 
-		active_connection.unwrap_or_else(move || {
-			let new_connection = self.create_connection();
-			self.register_connection(new_connection)
-		})
+		self.connection_state.lock_ignore_poison().connecting();
+		let new_connection = self.create_connection();
+		let mut connection = self.connection.lock_clear_poison();
+		let replaced_connection = connection.take_connection();
+		(
+			connection.register_connection(new_connection),
+			replaced_connection,
+		)
 	}
 
 	#[inline]
-	pub(crate) fn disconnect(&mut self) -> bool {
-		self.connection.lock_ignore_poison().disconnect()
-	}
-
-	pub(crate) fn reset(&mut self) {
-		self.disconnect();
-		self.connector.lock_ignore_poison().take();
+	pub(crate) fn take_connector(&mut self) -> Option<ConnectorProvider::Provided> {
+		self.connector.lock_ignore_poison().take()
 	}
 }
diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 96730b6..79a2329 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -58,26 +58,15 @@ where
 	) -> ConnectionHandle<
 		<ConnectableObservable<Source, ConnectorProvider> as Connectable>::ConnectionSubscription,
 	> {
-		if let Some(connection) = self.connection.as_ref()
-			&& !connection.is_closed()
-		{
-			return connection.clone();
-		}
-
+		// Returns the active connection if there is one
 		let connection = self.connectable.connect();
 		self.connection = Some(connection.clone());
 		connection
 	}
 
 	pub fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
-			&& !connection.is_closed()
-		{
-			connection.unsubscribe();
-			return true;
-		}
-
-		false
+		self.connection.take();
+		self.connectable.disconnect()
 	}
 }
 
@@ -104,7 +93,10 @@ where
 	{
 		let subscription = self.connectable.subscribe(destination);
 
-		self.connect();
+		// There's no need for a connection when the connector is already finished
+		if !subscription.is_closed() {
+			self.connect();
+		}
 
 		subscription
 	}
-- 
2.43.0


From 84148cb1db041e9a6c2d5de4e4cef5aec1cf0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:08 +0000
Subject: [PATCH 40/55] fix: a shared or connectable observable can be
 subscribed to while it is connecting

---
 .../src/connectable_observable.rs             | 38 ++++++++++++-----
 .../src/internal/connection_state.rs          |  7 ++++
 .../src/internal/connector_slot.rs            | 41 +++++++++++++++++++
 .../src/internal/connector_state.rs           | 35 ++++++----------
 .../src/internal/mod.rs                       |  2 +
 .../src/share_observable.rs                   |  5 ++-
 6 files changed, 94 insertions(+), 34 deletions(-)
 create mode 100644 crates/rx_core_observable_connectable/src/internal/connector_slot.rs

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 8b49f57..cbd8691 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -9,7 +9,8 @@ use rx_core_macro_observable_derive::RxObservable;
 
 use crate::{
 	internal::{
-		Connection, ConnectionOptions, ConnectionState, ConnectionSubscriber, ConnectorState,
+		Connection, ConnectionOptions, ConnectionState, ConnectionSubscriber, ConnectorSlot,
+		ConnectorState,
 	},
 	observable::{Connectable, ConnectableOptions, ConnectionHandle},
 };
@@ -34,6 +35,7 @@ where
 	/// ? for this ConnectableObservable as it is a low level component of other operators. (share)
 	/// ? if that's the case, revisit this and remove the arc
 	connector: Arc<Mutex<ConnectorState<Source, ConnectorProvider>>>,
+	connector_slot: ConnectorSlot<ConnectorProvider>,
 	connection: Arc<Mutex<Connection<ConnectionSubscription<Source, ConnectorProvider::Provided>>>>,
 	connection_state: Arc<Mutex<ConnectionState>>,
 }
@@ -46,23 +48,39 @@ where
 	ConnectionSubscription<Source, ConnectorProvider::Provided>: 'static + TeardownCollection,
 {
 	pub fn new(source: Source, options: ConnectableOptions<ConnectorProvider>) -> Self {
-		let connection_state = Arc::new(Mutex::new(ConnectionState::new(
-			ConnectionOptions::from_connectable_options(&options),
-		)));
+		let connection_options = ConnectionOptions::from_connectable_options(&options);
+		let connection_state = Arc::new(Mutex::new(ConnectionState::new(connection_options)));
+		let connector_slot = ConnectorSlot::new(options.connector_provider);
 		let connection = Arc::new(Mutex::new(Connection::default()));
 		Self {
 			connector: Arc::new(Mutex::new(ConnectorState::new(
 				source,
+				connector_slot.clone(),
 				connection.clone(),
 				connection_state.clone(),
-				options,
+				connection_options,
 			))),
+			connector_slot,
 			connection,
 			connection_state,
 		}
 	}
 }
 
+impl<Source, ConnectorProvider> ConnectableObservable<Source, ConnectorProvider>
+where
+	Source: Observable,
+	ConnectorProvider: 'static + Provider,
+	ConnectorProvider::Provided: SubjectLike<In = Source::Out, InError = Source::OutError> + Clone,
+	ConnectionSubscription<Source, ConnectorProvider::Provided>: 'static + TeardownCollection,
+{
+	/// The source is being subscribed to right now, and the connection will be
+	/// available only once that's done.
+	pub fn is_connecting(&self) -> bool {
+		self.connection_state.lock_ignore_poison().is_connecting()
+	}
+}
+
 impl<Source, ConnectorProvider> Observable for ConnectableObservable<Source, ConnectorProvider>
 where
 	Source: Observable,
@@ -82,10 +100,10 @@ where
 	where
 		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError>,
 	{
-		let mut subscription = {
-			let mut connector = self.connector.lock_ignore_poison();
-			connector.get_connector().subscribe(observer.upgrade())
-		};
+		// Nothing is locked while subscribing, what the connector replays may
+		// reach this connectable again
+		let mut connector = self.connector_slot.get_connector();
+		let mut subscription = connector.subscribe(observer.upgrade());
 
 		if !subscription.is_closed() {
 			self.connection_state
@@ -172,7 +190,7 @@ where
 	#[inline]
 	fn reset(&mut self) {
 		self.disconnect();
-		let connector = self.connector.lock_ignore_poison().take_connector();
+		let connector = self.connector_slot.connector().lock_ignore_poison().take();
 		drop(connector);
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_state.rs b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
index 32106a2..06dcd37 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
@@ -2,8 +2,12 @@ use rx_core_common::{Provider, SubjectLike};
 
 use crate::observable::ConnectableOptions;
 
+#[derive(Clone, Copy)]
 pub(crate) struct ConnectionOptions {
 	disconnect_when_ref_count_zero: bool,
+	pub(crate) reset_connector_on_disconnect: bool,
+	pub(crate) reset_connector_on_error: bool,
+	pub(crate) reset_connector_on_complete: bool,
 }
 
 pub(crate) struct ConnectionState {
@@ -30,6 +34,9 @@ impl ConnectionOptions {
 	{
 		Self {
 			disconnect_when_ref_count_zero: value.disconnect_when_ref_count_zero,
+			reset_connector_on_disconnect: value.reset_connector_on_disconnect,
+			reset_connector_on_error: value.reset_connector_on_error,
+			reset_connector_on_complete: value.reset_connector_on_complete,
 		}
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_slot.rs b/crates/rx_core_observable_connectable/src/internal/connector_slot.rs
new file mode 100644
index 0000000..412be06
--- /dev/null
+++ b/crates/rx_core_observable_connectable/src/internal/connector_slot.rs
@@ -0,0 +1,41 @@
+use std::sync::{Arc, Mutex};
+
+use derive_where::derive_where;
+use rx_core_common::{LockWithPoisonBehavior, Provider, SubjectLike};
+
+/// Shared access to the current connector, kept apart from the source so the
+/// connector can be subscribed to while the source is being subscribed to.
+#[derive_where(Clone)]
+pub(crate) struct ConnectorSlot<ConnectorProvider>
+where
+	ConnectorProvider: 'static + Provider,
+	ConnectorProvider::Provided: SubjectLike + Clone,
+{
+	connector: Arc<Mutex<Option<ConnectorProvider::Provided>>>,
+	connector_provider: Arc<Mutex<ConnectorProvider>>,
+}
+
+impl<ConnectorProvider> ConnectorSlot<ConnectorProvider>
+where
+	ConnectorProvider: 'static + Provider,
+	ConnectorProvider::Provided: SubjectLike + Clone,
+{
+	pub(crate) fn new(connector_provider: ConnectorProvider) -> Self {
+		Self {
+			connector: Arc::new(Mutex::new(None)),
+			connector_provider: Arc::new(Mutex::new(connector_provider)),
+		}
+	}
+
+	/// Returns the current connector, a new one is made if there isn't any.
+	pub(crate) fn get_connector(&self) -> ConnectorProvider::Provided {
+		self.connector
+			.lock_ignore_poison()
+			.get_or_insert_with(|| self.connector_provider.lock_ignore_poison().provide())
+			.clone()
+	}
+
+	pub(crate) fn connector(&self) -> Arc<Mutex<Option<ConnectorProvider::Provided>>> {
+		self.connector.clone()
+	}
+}
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index 37467b3..764c608 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -6,8 +6,10 @@ use rx_core_common::{
 use rx_core_macro_observable_derive::RxObservable;
 
 use crate::{
-	internal::{Connection, ConnectionState, ConnectionSubscriber},
-	observable::{ConnectableOptions, ConnectionHandle, ConnectionSubscription},
+	internal::{
+		Connection, ConnectionOptions, ConnectionState, ConnectionSubscriber, ConnectorSlot,
+	},
+	observable::{ConnectionHandle, ConnectionSubscription},
 };
 
 #[derive(RxObservable)]
@@ -26,13 +28,13 @@ where
 
 	/// Upon subscription this connector subject is what will be used as the
 	/// source
-	connector: Arc<Mutex<Option<ConnectorProvider::Provided>>>,
+	connector: ConnectorSlot<ConnectorProvider>,
 
 	connection: Arc<Mutex<Connection<ConnectionSubscription<Source, ConnectorProvider::Provided>>>>,
 
 	connection_state: Arc<Mutex<ConnectionState>>,
 
-	options: ConnectableOptions<ConnectorProvider>,
+	options: ConnectionOptions,
 }
 
 impl<Source, ConnectorProvider> ConnectorState<Source, ConnectorProvider>
@@ -44,39 +46,33 @@ where
 {
 	pub(crate) fn new(
 		source: Source,
+		connector: ConnectorSlot<ConnectorProvider>,
 		connection: Arc<
 			Mutex<Connection<ConnectionSubscription<Source, ConnectorProvider::Provided>>>,
 		>,
 		connection_state: Arc<Mutex<ConnectionState>>,
-		options: ConnectableOptions<ConnectorProvider>,
+		options: ConnectionOptions,
 	) -> Self {
 		Self {
 			source,
-			connector: Arc::new(Mutex::new(None)),
+			connector,
 			connection,
 			connection_state,
 			options,
 		}
 	}
 
-	pub(crate) fn get_connector(&mut self) -> ConnectorProvider::Provided {
-		let mut connector = self.connector.lock_ignore_poison();
-		connector
-			.get_or_insert_with(|| self.options.connector_provider.provide())
-			.clone()
-	}
-
 	pub(crate) fn create_connection(
 		&mut self,
 	) -> ConnectionSubscription<Source, ConnectorProvider::Provided> {
-		let connector = self.get_connector().clone();
+		let connector = self.connector.get_connector();
 
 		let reset_connector_on_disconnect = self.options.reset_connector_on_disconnect;
 		let connection_on_complete = self.connection_state.clone();
 		let connection_on_error = self.connection_state.clone();
-		let connector_on_complete = self.connector.clone();
-		let connector_on_error = self.connector.clone();
-		let connector_on_unsubscribe = self.connector.clone();
+		let connector_on_complete = self.connector.connector();
+		let connector_on_error = self.connector.connector();
+		let connector_on_unsubscribe = self.connector.connector();
 		let reset_on_complete = self.options.reset_connector_on_complete;
 		let reset_on_error = self.options.reset_connector_on_error;
 
@@ -140,9 +136,4 @@ where
 			replaced_connection,
 		)
 	}
-
-	#[inline]
-	pub(crate) fn take_connector(&mut self) -> Option<ConnectorProvider::Provided> {
-		self.connector.lock_ignore_poison().take()
-	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/mod.rs b/crates/rx_core_observable_connectable/src/internal/mod.rs
index 96e446e..8855956 100644
--- a/crates/rx_core_observable_connectable/src/internal/mod.rs
+++ b/crates/rx_core_observable_connectable/src/internal/mod.rs
@@ -1,9 +1,11 @@
 mod connection;
 mod connection_state;
 mod connection_subscriber;
+mod connector_slot;
 mod connector_state;
 
 pub(crate) use connection::*;
 pub(crate) use connection_state::*;
 pub(crate) use connection_subscriber::*;
+pub(crate) use connector_slot::*;
 pub(crate) use connector_state::*;
diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 79a2329..1c9a4b9 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -93,8 +93,9 @@ where
 	{
 		let subscription = self.connectable.subscribe(destination);
 
-		// There's no need for a connection when the connector is already finished
-		if !subscription.is_closed() {
+		// There's no need for a connection when the connector is already finished,
+		// or when this subscription is made while one is being established
+		if !subscription.is_closed() && !self.connectable.is_connecting() {
 			self.connect();
 		}
 
-- 
2.43.0


From edef0be6d89e522c9f91d68297fd9715061435cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 41/55] fix: connecting a finished connector again does not
 leak what its source sets up

---
 .../src/internal/connection_subscriber.rs              | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
index 8e02f5c..8a9dfe4 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_subscriber.rs
@@ -27,12 +27,20 @@ where
 		on_error: Box<dyn FnOnce() + Send + Sync>,
 		on_unsubscribe: Box<dyn FnOnce() + Send + Sync>,
 	) -> Self {
+		let mut teardown = SubscriptionData::default();
+
+		if connector.is_closed() {
+			// Nothing can be sent to a finished connector, whatever the source
+			// sets up for this connection is to be released right away.
+			teardown.unsubscribe();
+		}
+
 		Self {
 			connector,
 			on_complete: Some(on_complete),
 			on_error: Some(on_error),
 			on_unsubscribe: Some(on_unsubscribe),
-			teardown: SubscriptionData::default(),
+			teardown,
 		}
 	}
 }
-- 
2.43.0


From 2b083ad66a5f13bb9963f706d02e24769a889c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:20 +0000
Subject: [PATCH 42/55] fix: retrying behind an already closed destination
 releases its source and reports closed

---
 crates/rx_core_operator_retry/src/retry_observable.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 2e1a374..9b9a915 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -95,10 +95,11 @@ where
 					break;
 				}
 				continue;
-			} else if shared_destination.is_closed() {
-				break;
 			} else {
 				outer_subscription.add(last_subscription);
+				if shared_destination.is_closed() {
+					outer_subscription.unsubscribe();
+				}
 				break;
 			}
 		}
-- 
2.43.0


From d4d2f7400421271af3bb298b59e9e1093c6e7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:57 +0000
Subject: [PATCH 43/55] fix: cancelled work is dropped outside of the
 scheduler's lock

---
 .../src/ticking_executor.rs                     | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 94e208f..4a655e0 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -152,11 +152,18 @@ where
 	}
 
 	fn drain_scheduler_queue(&mut self, tick: Tick) -> bool {
-		let mut scheduler = self.scheduler.lock();
-		let had_actions = scheduler.has_actions();
-		scheduler.update_tick(tick);
-
-		for action in scheduler.drain_actions() {
+		// Cancelled work may own subscribers that reach for the scheduler when
+		// dropped, so it must not be locked while the actions are applied.
+		let (had_actions, actions) = {
+			let mut scheduler = self.scheduler.lock();
+			scheduler.update_tick(tick);
+			(
+				scheduler.has_actions(),
+				scheduler.drain_actions().collect::<Vec<_>>(),
+			)
+		};
+
+		for action in actions {
 			match action {
 				ScheduledWorkAction::<Tick, C>::Activate((cancellation_id, work)) => {
 					let work_id = self.work_id_generator.get_next();
-- 
2.43.0


From ea7167ee3534b9812553ad689a7b2ff254178f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:57 +0000
Subject: [PATCH 44/55] fix: throttle_time ignores a second terminal
 notification instead of panicking

---
 .../src/throttle_time_subscriber.rs                         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 9edbf69..0a91257 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -211,6 +211,9 @@ where
 	fn error(&mut self, error: Self::InError) {
 		{
 			let mut state = self.state.lock_ignore_poison();
+			if state.upstream_state.is_closed() {
+				return;
+			}
 			state.upstream_state.error();
 			state.clear_throttle();
 		}
@@ -222,6 +225,9 @@ where
 	fn complete(&mut self) {
 		let should_complete_immediately = {
 			let mut state = self.state.lock_ignore_poison();
+			if state.upstream_state.is_closed() {
+				return;
+			}
 			state.upstream_state.complete();
 
 			if state.throttle_deadline.is_none() || !state.has_pending_trailing(self.options) {
-- 
2.43.0


From 198ebf25a6c3b4bc23d4cbbc0c24292fc4430be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:02 +0000
Subject: [PATCH 45/55] fix: an operator that finished on its own ignores a
 later error of its source

---
 crates/rx_core_operator_find/src/find_subscriber.rs         | 4 +++-
 .../src/find_index_subscriber.rs                            | 6 ++++--
 crates/rx_core_operator_first/src/first_subscriber.rs       | 4 +++-
 crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs | 4 +++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_find/src/find_subscriber.rs b/crates/rx_core_operator_find/src/find_subscriber.rs
index 194b8bf..02e7612 100644
--- a/crates/rx_core_operator_find/src/find_subscriber.rs
+++ b/crates/rx_core_operator_find/src/find_subscriber.rs
@@ -59,7 +59,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FindOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination.error(FindOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
index 4a2fe6b..3f1a5cf 100644
--- a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
+++ b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
@@ -69,8 +69,10 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination
-			.error(FindIndexOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination
+				.error(FindIndexOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_first/src/first_subscriber.rs b/crates/rx_core_operator_first/src/first_subscriber.rs
index ecb7717..c47e412 100644
--- a/crates/rx_core_operator_first/src/first_subscriber.rs
+++ b/crates/rx_core_operator_first/src/first_subscriber.rs
@@ -61,7 +61,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FirstOperatorError::Upstream(error));
+		if !self.first_observed {
+			self.destination.error(FirstOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
diff --git a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
index 1c08a53..966ed18 100644
--- a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
+++ b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
@@ -51,7 +51,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
+		if !self.result_emitted {
+			self.destination.error(error);
+		}
 	}
 
 	#[inline]
-- 
2.43.0


From c59cd66741f4cf6080ccdccee15dae894df8d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:20 +0000
Subject: [PATCH 46/55] fix: combining observables finish once, whatever their
 destination still holds back

---
 .../src/combine_changes_subscriber.rs                  | 10 ++++++++++
 .../src/combine_latest_subscriber.rs                   | 10 ++++++++++
 crates/rx_core_observable_join/src/join_subscriber.rs  | 10 ++++++++++
 crates/rx_core_observable_zip/src/zip_subscriber.rs    | 10 ++++++++++
 4 files changed, 40 insertions(+)

diff --git a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
index 3f69e18..7c526f5 100644
--- a/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
+++ b/crates/rx_core_observable_combine_changes/src/combine_changes_subscriber.rs
@@ -36,6 +36,7 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	finished: bool,
 }
 
 impl<Destination, O1, O2> CombineChangesSubscriber<Destination, O1, O2>
@@ -53,6 +54,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -67,6 +69,7 @@ where
 		if !self.destination.is_closed()
 			&& (self.o1_state.is_completed() && self.o2_state.is_completed())
 		{
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
@@ -74,6 +77,7 @@ where
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed() && (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -90,6 +94,11 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		// The destination may still be open while it delivers what it holds back
+		if self.finished {
+			return;
+		}
+
 		let mut o1_just_nexted = false;
 		let mut o2_just_nexted = false;
 		match next {
@@ -104,6 +113,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
diff --git a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
index 6b0d740..b9b0b7f 100644
--- a/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
+++ b/crates/rx_core_observable_combine_latest/src/combine_latest_subscriber.rs
@@ -34,6 +34,7 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	finished: bool,
 }
 
 impl<Destination, O1, O2> CombineLatestSubscriber<Destination, O1, O2>
@@ -51,6 +52,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -74,6 +76,7 @@ where
 				|| (self.o1_state.is_primed() && self.o2_state.is_completed_but_not_primed())
 				|| (self.o1_state.is_completed_but_not_primed() && self.o2_state.is_primed()))
 		{
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
@@ -84,6 +87,7 @@ where
 				|| self.o1_state.is_closed_but_not_primed()
 				|| self.o2_state.is_closed_but_not_primed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -100,6 +104,11 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		// The destination may still be open while it delivers what it holds back
+		if self.finished {
+			return;
+		}
+
 		let either_was_next = match next {
 			EitherObservableNotification2::O1(notification) => {
 				let is_next = matches!(notification, SubscriberNotification::Next(_));
@@ -114,6 +123,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
diff --git a/crates/rx_core_observable_join/src/join_subscriber.rs b/crates/rx_core_observable_join/src/join_subscriber.rs
index 1db2db0..c71863f 100644
--- a/crates/rx_core_observable_join/src/join_subscriber.rs
+++ b/crates/rx_core_observable_join/src/join_subscriber.rs
@@ -36,6 +36,7 @@ where
 	o2_state: NotificationState<O2::Out, O2::OutError>,
 	#[destination]
 	destination: Destination,
+	finished: bool,
 }
 
 impl<Destination, O1, O2> JoinSubscriber<Destination, O1, O2>
@@ -53,6 +54,7 @@ where
 			o1_state: NotificationState::default(),
 			o2_state: NotificationState::default(),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -74,6 +76,7 @@ where
 		if !self.destination.is_closed()
 			&& (self.o1_state.is_completed() && self.o2_state.is_completed())
 		{
+			self.finished = true;
 			if let Some(next) = self.get_next() {
 				self.destination.next(next);
 			}
@@ -85,6 +88,7 @@ where
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed() && (self.o1_state.is_closed() && self.o2_state.is_closed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -101,6 +105,11 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		// The destination may still be open while it delivers what it holds back
+		if self.finished {
+			return;
+		}
+
 		match next {
 			EitherObservableNotification2::O1(notification) => {
 				if !self
@@ -121,6 +130,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index e2a58bf..4c38f86 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -36,6 +36,7 @@ where
 	destination: Destination,
 	o1_queue: NotificationQueue<O1::Out, O1::OutError>,
 	o2_queue: NotificationQueue<O2::Out, O2::OutError>,
+	finished: bool,
 }
 
 impl<Destination, O1, O2> ZipSubscriber<Destination, O1, O2>
@@ -53,6 +54,7 @@ where
 			o1_queue: NotificationQueue::new(options.clone()),
 			o2_queue: NotificationQueue::new(options),
 			destination,
+			finished: false,
 		}
 	}
 
@@ -78,6 +80,7 @@ where
 		if !self.destination.is_closed()
 			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
+			self.finished = true;
 			self.destination.complete();
 		}
 	}
@@ -85,6 +88,7 @@ where
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed() && (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
+			self.finished = true;
 			self.destination.unsubscribe();
 		}
 	}
@@ -101,6 +105,11 @@ where
 	O2::OutError: Into<Destination::InError>,
 {
 	fn next(&mut self, next: Self::In) {
+		// The destination may still be open while it delivers what it holds back
+		if self.finished {
+			return;
+		}
+
 		let either_was_next = match next {
 			EitherObservableNotification2::O1(notification) => {
 				let is_next = matches!(notification, SubscriberNotification::Next(_));
@@ -115,6 +124,7 @@ where
 		};
 
 		if let Some(error) = self.take_either_error() {
+			self.finished = true;
 			self.destination.error(error);
 			return;
 		}
-- 
2.43.0


From dacae6a03cd7cdb95fd2ab91e7507f5d73016f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 47/55] fix: observe_on drops what is still pending when its
 source fails

---
 .../rx_core_operator_observe_on/src/observe_on_subscriber.rs  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 1680c81..1416695 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -96,6 +96,10 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
+		// Errors are immediate, what is still pending must not follow it
+		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
+		self.scheduled_work_counter.store(0, Ordering::Relaxed);
+		self.scheduler.lock().cancel(self.cancellation_id);
 		self.destination.error(error);
 	}
 
-- 
2.43.0


From 83ef2cb25fc6569d2df6993410ed73d9b44a9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:15 +0000
Subject: [PATCH 48/55] fix: observing events of an entity that is gone
 completes instead of panicking

---
 .../src/event_subscription.rs                 | 47 ++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/crates/rx_bevy_observable_event/src/event_subscription.rs b/crates/rx_bevy_observable_event/src/event_subscription.rs
index d8c3389..e8eb086 100644
--- a/crates/rx_bevy_observable_event/src/event_subscription.rs
+++ b/crates/rx_bevy_observable_event/src/event_subscription.rs
@@ -1,4 +1,4 @@
-use bevy_ecs::{entity::Entity, event::EntityEvent, name::Name, observer::Observer};
+use bevy_ecs::{entity::Entity, event::EntityEvent, name::Name, observer::Observer, world::World};
 use disqualified::ShortName;
 use rx_bevy_common::{
 	RxBevyScheduler, RxBevySchedulerDespawnEntityExtension, SubscriptionSatellite,
@@ -47,25 +47,40 @@ where
 			scheduler_lock.schedule_immediate_work(
 				move |_, context| {
 					let mut commands = context.deferred_world.commands();
-					let observer_satellite_entity = commands.spawn((
-						Name::new(format!("Event Observer of {}", ShortName::of::<Self>())),
-						Observer::new(create_event_forwarder_observer_for_destination(
-							shared_destination_clone,
-						))
-						.with_entity(observed_event_source_entity)
-						.with_error_handler(bevy_ecs::error::error),
-						SubscriptionSatellite::new_with_teardown(
-							observed_event_source_entity,
-							Teardown::new(move || {
-								shared_destination_despawn_clone.complete();
-							}),
-						),
-					));
+					let observer_satellite_entity = commands.spawn_empty().id();
+					commands.queue(move |world: &mut World| {
+						// The observed entity may be gone by the time it could be observed
+						if world.get_entity(observed_event_source_entity).is_err() {
+							shared_destination_despawn_clone.complete();
+							return;
+						}
+
+						let Ok(mut observer_satellite) =
+							world.get_entity_mut(observer_satellite_entity)
+						else {
+							return;
+						};
+
+						observer_satellite.insert((
+							Name::new(format!("Event Observer of {}", ShortName::of::<Self>())),
+							Observer::new(create_event_forwarder_observer_for_destination(
+								shared_destination_clone,
+							))
+							.with_entity(observed_event_source_entity)
+							.with_error_handler(bevy_ecs::error::error),
+							SubscriptionSatellite::new_with_teardown(
+								observed_event_source_entity,
+								Teardown::new(move || {
+									shared_destination_despawn_clone.complete();
+								}),
+							),
+						));
+					});
 
 					scheduler_schedule_clone
 						.lock()
 						.schedule_invoked_despawn_entity(
-							observer_satellite_entity.id(),
+							observer_satellite_entity,
 							despawn_event_observer_invoke_id,
 						);
 				},
-- 
2.43.0


From c7f3c81f7f459fc883ddb67a4045eec51b177ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:13 +0000
Subject: [PATCH 49/55] fix: a pending subscribe whose subscription entity was
 despawned is dropped instead of panicking

---
 .../src/observable/command_subscribe.rs               | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/rx_bevy_common/src/observable/command_subscribe.rs b/crates/rx_bevy_common/src/observable/command_subscribe.rs
index f60bc28..3a74baa 100644
--- a/crates/rx_bevy_common/src/observable/command_subscribe.rs
+++ b/crates/rx_bevy_common/src/observable/command_subscribe.rs
@@ -77,9 +77,18 @@ where
 	Out: Signal,
 	OutError: Signal,
 {
-	fn apply(self, world: &mut bevy_ecs::world::World) -> Result<(), BevyError> {
+	fn apply(mut self, world: &mut bevy_ecs::world::World) -> Result<(), BevyError> {
 		let observable_entity = self.event.observable_entity;
 
+		// Despawning the subscription entity while the subscribe is still pending
+		// a retry means that it's no longer wanted.
+		if world.get_entity(self.event.subscription_entity).is_err() {
+			if let Some(mut destination) = self.event.try_consume_destination() {
+				destination.unsubscribe();
+			}
+			return Ok(());
+		}
+
 		let has_matching_subscribe_observer = world
 			.get::<ErasedSubscribeObservers<Out, OutError>>(observable_entity)
 			.is_some();
-- 
2.43.0


From f23b6ff64fb67fcbd482bdb4c6d39bd444f7d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:03 +0000
Subject: [PATCH 50/55] fix: resource changes made after the poll of the same
 executor run are observed

---
 .../src/resource_subscription.rs                 | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/rx_bevy_observable_resource/src/resource_subscription.rs b/crates/rx_bevy_observable_resource/src/resource_subscription.rs
index dea9f7d..830c288 100644
--- a/crates/rx_bevy_observable_resource/src/resource_subscription.rs
+++ b/crates/rx_bevy_observable_resource/src/resource_subscription.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use bevy_ecs::resource::Resource;
+use bevy_ecs::{change_detection::Tick, resource::Resource};
 use rx_bevy_common::RxBevyScheduler;
 use rx_core_common::{
 	PhantomInvariant, RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension,
@@ -44,10 +44,22 @@ where
 			let cancellation_id = scheduler_lock.generate_cancellation_id();
 
 			let mut resource_existed_in_the_previous_tick = false;
+			// Changes are tracked relative to the previous poll and not to the last
+			// run of the executor, otherwise changes made by works executed after
+			// the poll, but still during the same run, would never be observed.
+			let mut last_poll = Tick::new(0);
 			let mut shared_destination_clone = shared_destination.clone();
 			scheduler_lock.schedule_continuous_work(
 				move |_tick, context| {
-					let is_changed = context.deferred_world.is_resource_changed::<R>();
+					let this_poll = context
+						.deferred_world
+						.as_unsafe_world_cell_readonly()
+						.increment_change_tick();
+					let is_changed = context
+						.deferred_world
+						.get_resource_change_ticks::<R>()
+						.is_some_and(|ticks| ticks.is_changed(last_poll, this_poll));
+					last_poll = this_poll;
 					let resource_option = context.deferred_world.get_resource::<R>();
 
 					let is_added = {
-- 
2.43.0


From bb7b964575cabdd22ed171cd23adfa6ec35ccca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:10 +0000
Subject: [PATCH 51/55] fix: apply what other threads deferred while the lock
 was being released

---
 .../src/subscribers/subscriber_shared.rs              |  4 +++-
 .../src/subscriptions/subscription_shared.rs          |  4 +++-
 crates/rx_core_subject_publish/src/multicast.rs       | 10 ++++++++++
 .../src/multicast_subscription.rs                     | 11 +++++++----
 crates/rx_core_subject_publish/src/publish_subject.rs |  9 +--------
 5 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 916b4bc..dfe769a 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -189,7 +189,9 @@ where
 	}
 
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+		// What other threads defer while the lock is held would be missed if it
+		// wasn't checked again after it was released
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscriber) = self.shared_destination.try_lock()
 		{
 			SharedSubscriber::<Destination>::apply_notification_queue::<Destination>(
diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 23bf075..6d8e3d6 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -108,7 +108,9 @@ impl SharedSubscription {
 	}
 
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
+		// What other threads defer while the lock is held would be missed if it
+		// wasn't checked again after it was released
+		while self.deferred_state.lock_ignore_poison().is_dirty()
 			&& let Ok(mut subscription) = self.subscription.try_lock()
 		{
 			SharedSubscription::apply_notification_queue(
diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 33fcd1c..8d4ef4c 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -129,6 +129,16 @@ where
 		}
 	}
 
+	/// Has to be called after the lock on the subscribers was released, to not
+	/// miss what other threads have deferred while it was still held.
+	pub(crate) fn try_apply_deferred(&self) {
+		while self.deferred_state.lock_ignore_poison().is_dirty()
+			&& let Ok(mut subscribers) = self.subscribers.try_lock()
+		{
+			Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
+		}
+	}
+
 	pub(crate) fn apply_notification_queue(
 		state: Arc<Mutex<MulticastDeferredState<In, InError>>>,
 		subscribers: &mut MutexGuard<'_, Subscribers<In, InError>>,
diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index aa90bd7..914d232 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -81,11 +81,14 @@ where
 	fn unsubscribe(&mut self) {
 		if !self.try_check_is_closed()
 			&& let Some(id) = self.id
-			&& let Err(_unsubscribe_error) = self.subscribers.try_unsubscribe_by_id(id)
 		{
-			self.state
-				.lock_ignore_poison()
-				.defer_notification(MulticastNotification::UnsubscribeById(id));
+			if let Err(_unsubscribe_error) = self.subscribers.try_unsubscribe_by_id(id) {
+				self.state
+					.lock_ignore_poison()
+					.defer_notification(MulticastNotification::UnsubscribeById(id));
+			}
+
+			self.subscribers.try_apply_deferred();
 		}
 
 		self.subscriber.take();
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 1c3bdf1..c5f2490 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -72,14 +72,7 @@ where
 	InError: Signal + Clone,
 {
 	fn try_apply_deferred(&mut self) {
-		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscribers) = self.subscribers.subscribers.try_lock()
-		{
-			SharedSubscribers::apply_notification_queue(
-				self.deferred_state.clone(),
-				&mut subscribers,
-			);
-		}
+		self.subscribers.try_apply_deferred();
 	}
 }
 
-- 
2.43.0


From 2f63811cdded2cb4a8a42620ee56aba4b2371cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:58 +0000
Subject: [PATCH 52/55] fix: a subscriber that joins while the subject ends is
 told so

---
 .../rx_core_subject_publish/src/multicast.rs  | 38 ++++++++++++++++++-
 .../src/publish_subject.rs                    | 36 ++++++------------
 2 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 8d4ef4c..d771981 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -139,6 +139,40 @@ where
 		}
 	}
 
+	/// Tells the subscriber how the subject has ended if it did
+	pub(crate) fn close_if_ended<S>(
+		state: &Arc<Mutex<MulticastDeferredState<In, InError>>>,
+		subscriber: &mut S,
+	) -> bool
+	where
+		S: Subscriber<In = In, InError = InError> + ?Sized,
+	{
+		let (observed_error, is_completed, is_closed) = {
+			let state = state.lock_ignore_poison();
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+				state.is_closed(),
+			)
+		};
+
+		// The subscriber may call back into the subject, so no lock can be held
+		// while it is being notified.
+		if is_closed && !subscriber.is_closed() {
+			if let Some(error) = observed_error {
+				subscriber.error(error);
+			} else if is_completed {
+				subscriber.complete();
+			}
+
+			if !subscriber.is_closed() {
+				subscriber.unsubscribe();
+			}
+		}
+
+		is_closed
+	}
+
 	pub(crate) fn apply_notification_queue(
 		state: Arc<Mutex<MulticastDeferredState<In, InError>>>,
 		subscribers: &mut MutexGuard<'_, Subscribers<In, InError>>,
@@ -174,8 +208,8 @@ where
 						continue;
 					} else if state.lock_ignore_poison().is_closed_ignoring_deferred() {
 						// If the subscriber isn't closed, but the state is
-						// the subscriber should be unsubscribed too
-						subscriber.unsubscribe();
+						// the subscriber should be closed too
+						Self::close_if_ended(&state, subscriber);
 						continue;
 					}
 				}
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index c5f2490..4e82c1f 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -110,42 +110,24 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		let (observed_error, is_completed) = {
-			let state = self.deferred_state.lock_ignore_poison();
-			(
-				state.observed_error.clone(),
-				state.observed_state.is_completed(),
-			)
-		};
-
-		// The subscriber may call back into this subject, so no lock can be held
-		// while it is being notified.
-		if let Some(error) = observed_error {
-			subscriber.error(error);
-		} else if is_completed {
-			subscriber.complete();
-		}
-
-		if self.is_closed() {
+		if SharedSubscribers::close_if_ended(&self.deferred_state, &mut subscriber) {
 			// Subscribing to a closed subject could also cause a panic, but I prefer this
-			if !subscriber.is_closed() {
-				subscriber.unsubscribe();
-			}
 			MulticastSubscription::new_closed(self.deferred_state.clone(), self.subscribers.clone())
 		} else {
 			let shared_subscriber = Arc::new(Mutex::new(subscriber));
-			let shared_subscriber_clone = shared_subscriber.clone();
+			let mut shared_subscriber_clone = shared_subscriber.clone();
 
 			let try_add_result = self.subscribers.try_add_subscriber(shared_subscriber);
 			let id = match try_add_result {
 				Ok(id) => id,
 				Err(add_subscriber_error) => {
-					self.deferred_state.lock_ignore_poison().defer_notification(
-						MulticastNotification::Add(
+					let mut state = self.deferred_state.lock_ignore_poison();
+					if !state.is_closed_ignoring_deferred() {
+						state.defer_notification(MulticastNotification::Add(
 							add_subscriber_error.id,
 							add_subscriber_error.subscriber,
-						),
-					);
+						));
+					}
 					add_subscriber_error.id
 				}
 			};
@@ -154,6 +136,10 @@ where
 			// this subject
 			self.try_apply_deferred();
 
+			// In case another thread have ended this subject before the subscriber
+			// was added, it wouldn't be notified by anyone else.
+			SharedSubscribers::close_if_ended(&self.deferred_state, &mut shared_subscriber_clone);
+
 			MulticastSubscription::new(
 				id,
 				self.deferred_state.clone(),
-- 
2.43.0


From ad2ef765ceef9e88225a5275d46bf157eb791aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:13 +0000
Subject: [PATCH 53/55] fix: only the first of concurrent ends ends a subject
 or a shared subscriber

---
 .../src/subscribers/subscriber_shared.rs      | 41 +++++++++++++------
 .../src/publish_subject.rs                    | 27 ++++++++----
 2 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index dfe769a..1549d02 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -188,6 +188,32 @@ where
 		Arc::downgrade(&self.shared_destination)
 	}
 
+	/// Returns true if this was still open, as only one thread can be the one to
+	/// end it
+	fn observe_end(
+		&self,
+		observe: impl FnOnce(&mut SubscriberDeferredState<Destination::In, Destination::InError>),
+	) -> bool {
+		if self.is_destination_closed() {
+			return false;
+		}
+
+		let mut state = self.deferred_state.lock_ignore_poison();
+		let is_ending = !state.is_closed();
+		if is_ending {
+			observe(&mut state);
+		}
+		is_ending
+	}
+
+	/// While the destination is locked it's assumed to be open
+	fn is_destination_closed(&self) -> bool {
+		self.shared_destination
+			.try_lock()
+			.map(|destination| destination.is_closed())
+			.unwrap_or(false)
+	}
+
 	fn try_apply_deferred(&mut self) {
 		// What other threads defer while the lock is held would be missed if it
 		// wasn't checked again after it was released
@@ -337,9 +363,7 @@ where
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_error = true;
-
+		if self.observe_end(|state| state.observed_error = true) {
 			if let Err(error_error) = self.try_error(error) {
 				self.deferred_state
 					.lock_ignore_poison()
@@ -350,9 +374,7 @@ where
 	}
 
 	fn complete(&mut self) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_completion = true;
-
+		if self.observe_end(|state| state.observed_completion = true) {
 			if let Err(_complete_error) = self.try_complete() {
 				self.deferred_state
 					.lock_ignore_poison()
@@ -368,12 +390,7 @@ where
 	Destination: 'static + Subscriber + Send + Sync,
 {
 	fn is_closed(&self) -> bool {
-		self.deferred_state.lock_ignore_poison().is_closed()
-			|| self
-				.shared_destination
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
+		self.deferred_state.lock_ignore_poison().is_closed() || self.is_destination_closed()
 	}
 
 	fn unsubscribe(&mut self) {
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 4e82c1f..f6142b5 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -168,9 +168,17 @@ where
 	}
 
 	fn error(&mut self, error: Self::InError) {
-		if !self.is_closed() {
-			self.deferred_state.lock_ignore_poison().observed_error = Some(error.clone());
+		// Only one thread can be the one to end this subject
+		let is_ending = {
+			let mut state = self.deferred_state.lock_ignore_poison();
+			let is_ending = !state.is_closed();
+			if is_ending {
+				state.observed_error = Some(error.clone());
+			}
+			is_ending
+		};
 
+		if is_ending {
 			if let Err(error_error) = self.subscribers.try_error(error) {
 				self.deferred_state
 					.lock_ignore_poison()
@@ -182,12 +190,17 @@ where
 	}
 
 	fn complete(&mut self) {
-		if !self.is_closed() {
-			self.deferred_state
-				.lock_ignore_poison()
-				.observed_state
-				.complete();
+		// Only one thread can be the one to end this subject
+		let is_ending = {
+			let mut state = self.deferred_state.lock_ignore_poison();
+			let is_ending = !state.is_closed();
+			if is_ending {
+				state.observed_state.complete();
+			}
+			is_ending
+		};
 
+		if is_ending {
 			if let Err(_complete_error) = self.subscribers.try_complete() {
 				self.deferred_state
 					.lock_ignore_poison()
-- 
2.43.0


From 22e1a32328bcbfb2745b9620fe94a0f8db897fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:29 +0000
Subject: [PATCH 54/55] fix: a subscriber of messages that unsubscribes itself
 while receiving one stops receiving them

---
 .../src/message_subscription.rs                       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/rx_bevy_observable_message/src/message_subscription.rs b/crates/rx_bevy_observable_message/src/message_subscription.rs
index 6ad04a8..8e60bf6 100644
--- a/crates/rx_bevy_observable_message/src/message_subscription.rs
+++ b/crates/rx_bevy_observable_message/src/message_subscription.rs
@@ -28,22 +28,23 @@ where
 			let cancellation_id = scheduler_lock.generate_cancellation_id();
 
 			let mut message_cursor = MessageCursor::<Destination::In>::default();
-			let shared_destination_clone = shared_destination.clone();
+			let mut shared_destination_clone = shared_destination.clone();
 			scheduler_lock.schedule_continuous_work(
 				move |_, context| {
 					let events = context
 						.deferred_world
 						.resource::<Messages<Destination::In>>();
 
-					let mut destination = shared_destination_clone.lock();
-					if destination.is_closed() {
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
+					// The destination must not be kept locked, otherwise if it
+					// unsubscribes itself, that would be deferred forever.
 					for event in message_cursor.read(events).cloned() {
-						destination.next(event);
+						shared_destination_clone.next(event);
 
-						if destination.is_closed() {
+						if shared_destination_clone.is_closed() {
 							return WorkResult::Done;
 						}
 					}
-- 
2.43.0


From a2d3dad37edf262656c3140faf9fce4e33cdc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:32 +0000
Subject: [PATCH 55/55] fix: whoever subscribes to an ended subject is told its
 end like before

---
 crates/rx_core_subject_publish/src/multicast.rs       | 2 +-
 crates/rx_core_subject_publish/src/publish_subject.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index d771981..4e1f2e2 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -158,7 +158,7 @@ where
 
 		// The subscriber may call back into the subject, so no lock can be held
 		// while it is being notified.
-		if is_closed && !subscriber.is_closed() {
+		if is_closed {
 			if let Some(error) = observed_error {
 				subscriber.error(error);
 			} else if is_completed {
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index f6142b5..2390908 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -138,7 +138,12 @@ where
 
 			// In case another thread have ended this subject before the subscriber
 			// was added, it wouldn't be notified by anyone else.
-			SharedSubscribers::close_if_ended(&self.deferred_state, &mut shared_subscriber_clone);
+			if !shared_subscriber_clone.is_closed() {
+				SharedSubscribers::close_if_ended(
+					&self.deferred_state,
+					&mut shared_subscriber_clone,
+				);
+			}
 
 			MulticastSubscription::new(
 				id,
-- 
2.43.0

