From d26ec8588e5d58752500369153bb87f563780ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 01/24] hook: expose collaction constructor and tweens under
 cfg(tp_verif)

---
 client/rust/src/action/mod.rs                       | 7 +++++++
 client/rust/src/contract/properties/channels/mod.rs | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/client/rust/src/action/mod.rs b/client/rust/src/action/mod.rs
index 2e1f0c8..704220f 100644
--- a/client/rust/src/action/mod.rs
+++ b/client/rust/src/action/mod.rs
@@ -24,6 +24,13 @@ pub struct Collaction {
 }
 
 impl Collaction {
+    /// Builds a collaction for the verification harness, there is no other
+    /// public constructor.
+    #[cfg(tp_verif)]
+    pub fn verif_new(actions: Vec<Action>) -> Self {
+        Self { actions }
+    }
+
     pub fn actions(&self) -> &[Action] {
         &self.actions
     }
diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index 80232c1..7311a9b 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -3,7 +3,11 @@ pub mod dyn_channel;
 pub mod dyn_handle;
 mod handle;
 
+#[cfg(not(tp_verif))]
 mod misc;
+/// Only visible to the verification harness
+#[cfg(tp_verif)]
+pub mod misc;
 
 pub use self::channel::{Channel, Keyframe};
 pub use self::dyn_channel::{apply_to_channel, apply_to_channel_mut, apply_to_channel_ref};
-- 
2.43.0


From d6da9c13b2b8202d992aac86d0710c39650d9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 02/24] fix: remove an object's fields and contract membership
 along with it

object_remove took the object out of its arena before binding the fields that
it had to remove, so that the bind always failed: removing any object that has
fields returned an error and leaked all of them. It also never removed the
object from its contract's set of objects, and removed objects of contracts
other than the given one.
---
 client/rust/src/baseline.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 09f749d..7b24aa0 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -191,15 +191,19 @@ impl Baseline {
     }
 
     pub fn object_remove<C: Contract>(&mut self, obj: ObjectHandle) -> Result<()> {
-        let o = if let Some(o) = self.objects.remove(obj) {
-            o
+        let contract = if let Some(o) = self.objects.get(obj) {
+            o.contract()
         } else {
             return Err(eyre!("Object did not exist, so it could not be removed"));
         };
+        if self.contract_data(contract)?.id() != C::ID {
+            return Err(eyre!("Object did not match the provided contract type!"));
+        }
 
-        // remove all fields of the object
-        let states = StatesIter::<C::States>::new(o.contract());
-        let channels = ChannelsIter::<C::Channels>::new(o.contract());
+        // remove all fields of the object. This needs the object to still exist,
+        // because the fields have to be bound to it.
+        let states = StatesIter::<C::States>::new(contract);
+        let channels = ChannelsIter::<C::Channels>::new(contract);
 
         for s in states {
             apply_to_state_id!(s, |id| {
@@ -221,6 +225,11 @@ impl Baseline {
             })?;
         }
 
+        self.objects.remove(obj);
+        if let Some(c_data) = self.contracts.get_mut(contract) {
+            c_data.objects_mut().remove(&obj);
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 62fb183420b0bbed80d09fe4e3d040ddb46db408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 03/24] fix: refuse to create objects under the registration of
 another contract

A contract value registered in one baseline could be used with another baseline
where its handle belongs to a different contract. The object was then created
with the fields of one contract under the registration of the other.
---
 client/rust/src/baseline.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 7b24aa0..2935e7c 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -128,8 +128,9 @@ impl Baseline {
         states: impl Iterator<Item = DynTpProperty>,
         channels: impl Iterator<Item = DynChannel>,
     ) -> Result<ObjectHandle> {
-        if !self.contracts.contains(contract.handle()) {
-            return Err(eyre!("No such contract for that handle"));
+        match self.contracts.get(contract.handle()) {
+            Some(c_data) if c_data.id() == C::ID => {}
+            _ => return Err(eyre!("No such contract for that handle")),
         }
 
         let state_types = C::States::enumerate_types();
-- 
2.43.0


From fa844688a68130cdcfaaa377fa26387c198d3e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 04/24] fix: nth() of the field iterators returned the wrong
 field

It paired the type of the current field with the index of the next one, only
advanced by one field, and overflowed for large arguments.
---
 client/rust/src/contract/properties/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/contract/properties/mod.rs b/client/rust/src/contract/properties/mod.rs
index 4e7a0d7..83064c7 100644
--- a/client/rust/src/contract/properties/mod.rs
+++ b/client/rust/src/contract/properties/mod.rs
@@ -37,17 +37,17 @@ macro_rules! prop_iter {
 
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
                 let n_fields = S::enumerate_types().len();
-                let new_pos = self.pos + n;
+                let new_pos = self.pos.saturating_add(n);
                 if new_pos >= n_fields {
                     self.pos = n_fields;
                     return None;
                 }
                 let prop_type = S::enumerate_types()
-                    .get(self.pos)
+                    .get(new_pos)
                     .copied()
                     .expect("Should be impossible to be `None`");
-                self.pos += 1; // also discard the element at the new position
-                Some($dyn_name::new(self.contract, self.pos, prop_type))
+                self.pos = new_pos + 1; // also discard the element at the new position
+                Some($dyn_name::new(self.contract, new_pos, prop_type))
             }
         }
     };
-- 
2.43.0


From 5b24c34541ca5c2042d941095c7f608d2ec7ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 05/24] fix: convert ticks to seconds with the declared
 resolution

There are 1000 ticks per second, but the conversions divided by 1024, and the
shift rounded negative times down although it is documented to truncate.
---
 client/rust/src/time/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 1dc0a01..4ccb2bc 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -26,11 +26,11 @@ impl Ticks {
     /// The return value of this function truncates the actual `seconds` value.
     /// Use `Time.as_secs_f32()` for more precision.
     pub fn as_secs(&self) -> i32 {
-        self.0 >> 10 // normalize scalar factor (1024 denominator)
+        self.0 / Self::ticks_per_second()
     }
 
     pub fn as_secs_f32(&self) -> f32 {
-        (self.0 as f32) / 1024.0
+        (self.0 as f32) / (Self::ticks_per_second() as f32)
     }
 }
 
-- 
2.43.0


From 1fbd8982681e991d75d1a3be778dacdb79f1a2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 06/24] fix: saturate when scaling ticks

Addition and subtraction saturate, but scaling wrapped around.
---
 client/rust/src/time/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 4ccb2bc..0b0234b 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -57,7 +57,7 @@ impl Mul<TimeScale> for Ticks {
         let mut val = self.0 as i64;
         val *= other.numerator_as_i64();
         val >>= TimeScale::denominator_as_log2();
-        Self(val as i32)
+        Self(val.clamp(i32::MIN.into(), i32::MAX.into()) as i32)
     }
 }
 
-- 
2.43.0


From fae465d346549d327dabfeb42e8bad6bd1cbc593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 07/24] fix: tween integers downwards and over their whole
 range

Decreasing tweens never moved because the difference was cast to an unsigned
integer, and differences that do not fit the type or f32 overflowed or missed
the target value.
---
 .../src/contract/properties/channels/misc.rs  | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index 520a0d0..8ca6713 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -24,11 +24,23 @@ pub struct IntTweenable<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + Fr
 impl<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + FromPrimitive> CanTween
     for IntTweenable<T>
 {
-    fn ease(mut from: Self, to: Self, time: impl Float) -> Self {
-        let diff: f32 = (to.0 - from.0).as_();
-        let scaled_diff: u32 = (time.to_f32().unwrap() * diff) as _;
-        from.0 = from.0 + FromPrimitive::from_u32(scaled_diff).unwrap();
-        from
+    fn ease(from: Self, to: Self, time: impl Float) -> Self {
+        // Wide enough for the difference of any two values of up to 64 bits
+        let as_i128 = |value: T| value.to_i128().unwrap();
+        let (start, end) = (as_i128(from.0), as_i128(to.0));
+        let time = time.to_f64().unwrap();
+
+        let scaled_diff = (time * (end - start) as f64) as i128;
+        let value = start.saturating_add(scaled_diff);
+        // Only easing functions that overshoot may leave the range of the two values
+        let (min, max) = if (0.0..1.0).contains(&time) {
+            (start.min(end), start.max(end))
+        } else if time == 1.0 {
+            (end, end)
+        } else {
+            (as_i128(T::min_value()), as_i128(T::max_value()))
+        };
+        Self(T::from_i128(value.clamp(min, max)).unwrap())
     }
 }
 
-- 
2.43.0


From 2f334f44f8072a2339407f9f611c4a4d945c0a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 08/24] fix: sort keyframes by a total order

Treating NaN as equal to every time is not a consistent order, so that one NaN
left the other keyframes unsorted.
---
 client/rust/src/contract/properties/channels/channel.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/channel.rs b/client/rust/src/contract/properties/channels/channel.rs
index d70efce..cd4fa4b 100644
--- a/client/rust/src/contract/properties/channels/channel.rs
+++ b/client/rust/src/contract/properties/channels/channel.rs
@@ -26,11 +26,7 @@ impl<T: ITpProperty> Channel<T> {
     pub fn new(keyframes: impl Iterator<Item = Keyframe<T>>) -> Self {
         let mut keyframes: Vec<_> = keyframes.collect();
         // Sort keyframes by time
-        keyframes.sort_unstable_by(|a, b| {
-            a.time()
-                .partial_cmp(&b.time())
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        keyframes.sort_unstable_by(|a, b| a.time().total_cmp(&b.time()));
         Self(keyframes)
     }
 
-- 
2.43.0


From a3761fa2206116d703f59fce9ccf8dfb572fdb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 09/24] fix: make the ids of list fields copyable

The accessors generated by #[states] and #[channels] copy the id, so that
contracts with list fields did not compile.
---
 client/rust/src/contract/properties/channels/mod.rs | 4 ++--
 client/rust/src/contract/properties/states/id.rs    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index 7311a9b..de79705 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -18,7 +18,7 @@ pub use crate::contract::properties::dynamic::apply_to_channel_id;
 
 use crate::contract::properties::dynamic::TpPropertyType;
 use crate::contract::properties::dynamic::__macro::{DynEnum, DynTpPropId};
-use crate::contract::properties::traits::{ITpData, ITpProperty, ITpPropertyStatic};
+use crate::contract::properties::traits::{ITpProperty, ITpPropertyStatic};
 use crate::contract::ContractDataHandle;
 
 use std::any::TypeId;
@@ -74,7 +74,7 @@ impl<T: ITpProperty> ChannelId<T> {
         }
     }
 }
-impl<T: ITpData> Copy for ChannelId<T> {}
+impl<T: ITpProperty> Copy for ChannelId<T> {}
 
 pub trait IChannels {
     fn type_ids() -> &'static [TypeId];
diff --git a/client/rust/src/contract/properties/states/id.rs b/client/rust/src/contract/properties/states/id.rs
index a50d73f..cbdbc3e 100644
--- a/client/rust/src/contract/properties/states/id.rs
+++ b/client/rust/src/contract/properties/states/id.rs
@@ -1,5 +1,5 @@
 use crate::contract::properties::dynamic::__macro::{DynEnum, DynTpPropId};
-use crate::contract::properties::traits::{ITpData, ITpProperty};
+use crate::contract::properties::traits::ITpProperty;
 use crate::contract::ContractDataHandle;
 
 use std::marker::PhantomData;
@@ -36,7 +36,7 @@ impl<T: ITpProperty> StateId<T> {
         }
     }
 }
-impl<T: ITpData> Copy for StateId<T> {}
+impl<T: ITpProperty> Copy for StateId<T> {}
 
 DynTpPropId!(DynStateId, StateId);
 
-- 
2.43.0


From 0692de40ce09dd754b1b736746e8c2a8b1347854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 10/24] fix: do not reverse the action that failed

A rejected collaction also reversed the failing action, which was never
applied. For a write to an invalid handle that panicked the engine.
---
 client/rust/src/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index b118553..fab01ad 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -86,8 +86,8 @@ impl Engine {
                 }
                 Err(_) => {
                     // Reverse previously-applied Actions within this Collaction.
-                    applied_actions.push(action);
-                    // Go in FIFO order
+                    // The failed Action had no effect, so there is nothing to reverse for it.
+                    // Go in LIFO order
                     self.reverse_actions(applied_actions.into_iter().rev());
 
                     // Bail and reject this Collaction.
-- 
2.43.0


From 71bdbd3d1ff0f49a612acb1c88e0803a02691a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 11/24] fix: apply state writes instead of panicking

Applying any collaction that writes a state hit a todo!(). Swap the value with
the one in the action, as intended. Data of another type is an error.
---
 client/rust/src/engine.rs | 41 ++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index fab01ad..ac6b465 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -1,9 +1,15 @@
 use crate::action::property::{PropertyAction, StateAction};
 use crate::action::{Action, ActionKind, ActionResult, Collaction, CollactionResult, IAction};
-use crate::baseline::BaselineKind;
+use crate::apply_to_state_handle;
+use crate::baseline::{Baseline, BaselineKind};
+use crate::contract::properties::dynamic::{apply_to_prop, DynTpProperty};
+use crate::contract::properties::states::StateHandle;
+use crate::contract::properties::traits::ITpPropertyStatic;
 use crate::realm::Realm;
 use crate::time::Ticks;
 
+use std::any::Any;
+
 use better_borrow::BBorrow;
 use crossbeam_channel::{Receiver, RecvTimeoutError, Sender, TryRecvError};
 use eyre::{eyre, WrapErr};
@@ -13,6 +19,24 @@ type ApplyResult = Result<CollactionResult, RecvTimeoutError>;
 
 pub type ActionSender = Sender<Collaction>;
 
+/// Swaps the value of a state with `data`, which must hold the same type.
+fn swap_state<T: ITpPropertyStatic>(
+    baseline: &mut Baseline,
+    handle: StateHandle<T>,
+    data: &mut DynTpProperty,
+) -> ActionResult {
+    fn as_any<T: Any>(value: &mut T) -> &mut dyn Any {
+        value
+    }
+
+    let state = baseline.state_mut(handle).wrap_err("Invalid Handle")?;
+    let data = apply_to_prop!(data, as_any)
+        .downcast_mut::<T>()
+        .ok_or_else(|| eyre!("The type of the data did not match the type of the state"))?;
+    std::mem::swap(&mut state.value, data);
+    Ok(())
+}
+
 /// Manages reading and writing to the `Realm`.
 ///
 /// # Threading architecture
@@ -118,23 +142,12 @@ impl Engine {
                     }
                     StateAction::Write { handle, data } => {
                         // Get data from the Action and apply it to the BaselineFork.
-                        let state = self
-                            .realm_mut()
-                            .baseline_mut(BaselineKind::Fork)
-                            .state_mut(*handle)
-                            .wrap_err("Invalid Handle")?;
-
-                        // Sanity check that all types remain the same
-                        debug_assert!(state.0.prop_type() == data.prop_type());
-                        // TODO[SER-272]: handle DynTpProperty<DynTpData> and DynTpData in general
+                        let baseline = self.realm_mut().baseline_mut(BaselineKind::Fork);
 
                         // Swap the current value with the new data.
                         // This optimizes applying the Action and allows
                         // for its simple reversal if needed.
-
-                        // TODO: hard ;(
-                        //mem::swap(&mut state.value, data);
-                        todo!("Figure out how to swap")
+                        apply_to_state_handle!(*handle, |h| swap_state(baseline, h, data))
                     }
                 }
             }
-- 
2.43.0


From 6a38dce43f8f87f98e713ac6caea7e2fbe6bd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 12/24] fix: export release functions for everything the C API
 hands out

Channel handles, channel ids and the lists returned by Channel__keyframes,
Channel__keyframes_mut and ContractData__objects could not be freed.
---
 client/rust/src/c_api_release.rs | 62 ++++++++++++++++++++++++++++++++
 client/rust/src/lib.rs           |  3 ++
 2 files changed, 65 insertions(+)
 create mode 100644 client/rust/src/c_api_release.rs

diff --git a/client/rust/src/c_api_release.rs b/client/rust/src/c_api_release.rs
new file mode 100644
index 0000000..949024f
--- /dev/null
+++ b/client/rust/src/c_api_release.rs
@@ -0,0 +1,62 @@
+//! Exports the functions that release the owned values which other parts of the
+//! C API hand out, but which have no release function of their own.
+#![allow(non_camel_case_types, non_snake_case, dead_code)]
+
+use crate::contract::properties::primitives;
+
+use rsharp::remangle;
+use safer_ffi::prelude::*;
+
+macro_rules! monomorphize {
+    // Base case
+    ($path:literal, $t:ty $(,)?) => {
+        paste::paste! {
+            mod [<_Release_ $t:camel>] {
+                use super::*;
+                use crate::contract::properties::channels::c_api::{
+                    [<ChannelHandle_ $t:camel>] as Monomorphized_ChannelHandle,
+                    [<ChannelId_ $t:camel>] as Monomorphized_ChannelId,
+                    [<Keyframe_ $t:camel>] as Monomorphized_Keyframe,
+                };
+
+                #[remangle($path)]
+                #[ffi_export]
+                pub fn [<ChannelHandle_ $t:camel __drop>](h: repr_c::Box<Monomorphized_ChannelHandle>) {
+                    drop(h)
+                }
+
+                #[remangle($path)]
+                #[ffi_export]
+                pub fn [<ChannelId_ $t:camel __drop>](id: repr_c::Box<Monomorphized_ChannelId>) {
+                    drop(id)
+                }
+
+                #[remangle($path)]
+                #[ffi_export]
+                pub fn [<Channel_ $t:camel __keyframes_drop>]<'a>(v: repr_c::Vec<&'a Monomorphized_Keyframe>) {
+                    drop(v)
+                }
+
+                #[remangle($path)]
+                #[ffi_export]
+                pub fn [<Channel_ $t:camel __keyframes_mut_drop>]<'a>(v: repr_c::Vec<&'a mut Monomorphized_Keyframe>) {
+                    drop(v)
+                }
+            }
+        }
+    };
+    // recursive case
+    ($path:literal, $first_t:ty, $($tail_t:ty),+ $(,)?) => {
+        monomorphize!($path, $first_t);
+        monomorphize!($path, $($tail_t),+);
+    };
+}
+
+// This is like doing `monomorphize!("whatever", Keyframe, u8, u16, ...)
+primitives!(; types, monomorphize, "tp_client::contract::properties::channels");
+
+#[remangle("tp_client::contract")]
+#[ffi_export]
+pub fn ContractData__objects_drop(objects: repr_c::Vec<crate::object::c_api::ObjectHandle>) {
+    drop(objects)
+}
diff --git a/client/rust/src/lib.rs b/client/rust/src/lib.rs
index a0dead4..5c96ee8 100644
--- a/client/rust/src/lib.rs
+++ b/client/rust/src/lib.rs
@@ -34,6 +34,9 @@ pub mod object;
 pub mod realm;
 pub mod time;
 
+#[cfg(feature = "c_api")]
+mod c_api_release;
+
 pub use engine::Engine;
 
 // This generates the C header file for the bindings. See safer-ffi's guide.
-- 
2.43.0


From 52e636fd1d5b5c61006ac72633fcc22d834fdfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 13/24] fix: mangle the exported name of ChannelId__contract

It was the only function exported without its path.
---
 client/rust/src/contract/properties/channels/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index de79705..8f6a353 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -135,6 +135,7 @@ pub mod c_api {
                     }
                     pub use [<ChannelId_ $t:camel>] as Monomorphized;
 
+                    #[remangle($path)]
                     #[ffi_export]
                     pub fn [<ChannelId_ $t:camel __contract>]<'a>(id: &'a Monomorphized) -> repr_c::Box<CContractDataHandle> {
                         repr_c::Box::new(CContractDataHandle::from(id.inner.contract()))
-- 
2.43.0


From b9b2081364307568467ea316c036b94fb04e7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 14/24] fix: do not allocate for the caller's size hint when
 creating objects

An iterator with too many fields, such as iter::repeat(), reports a size of
usize::MAX, and creation panicked instead of returning an error.
---
 client/rust/src/baseline.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 2935e7c..70ae892 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -139,9 +139,8 @@ impl Baseline {
         // Check that all types match before attempting to create properties
         macro_rules! check_types {
             ($prop:ident, $types:ident) => {{
-                let size = $prop.size_hint().0;
                 $prop.zip_longest($types).enumerate().try_fold(
-                    Vec::with_capacity(size),
+                    Vec::with_capacity($types.len()),
                     |mut acc, (i, either)| {
                         if let EitherOrBoth::Both(p, t) = either {
                             if p.prop_type() != *t {
-- 
2.43.0


From 3dd32f24daef8802e728f1094a4a10cf03f1fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 15/24] fix: reserving no extra capacity corrupted the arena

---
 crates/datastructures/arena/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/datastructures/arena/src/lib.rs b/crates/datastructures/arena/src/lib.rs
index 8476511..cb2d033 100644
--- a/crates/datastructures/arena/src/lib.rs
+++ b/crates/datastructures/arena/src/lib.rs
@@ -73,7 +73,10 @@ impl<T> Arena<T> {
     }
 
     pub fn reserve(&mut self, additional_capacity: usize) {
-        self.0.reserve(additional_capacity)
+        // Reserving nothing would corrupt the free list of the inner arena.
+        if additional_capacity > 0 {
+            self.0.reserve(additional_capacity)
+        }
     }
 }
 impl<T> Default for Arena<T> {
-- 
2.43.0


From 81b77ba5354c0efd4b9a55d4e01add10d3911467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 16/24] fix: apply_to_prop_ref and apply_to_prop_mut named a
 private module

---
 client/rust/src/contract/properties/dynamic/__macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/contract/properties/dynamic/__macro.rs b/client/rust/src/contract/properties/dynamic/__macro.rs
index 42fc99b..1a0a5bc 100644
--- a/client/rust/src/contract/properties/dynamic/__macro.rs
+++ b/client/rust/src/contract/properties/dynamic/__macro.rs
@@ -375,7 +375,7 @@ pub use apply_to_channel_handle;
 macro_rules! apply_to_prop_ref {
     ($dyn_prop_ref:expr, $closure:expr) => {
         $crate::contract::properties::dynamic::__macro::apply_to_dyn!(
-            $crate::contract::properties::dynamic::property,
+            $crate::contract::properties::dynamic,
             DynTpPropertyRef,
             DynTpPrimitiveRef,
             DynTpVecRef,
@@ -394,7 +394,7 @@ pub use apply_to_prop_ref;
 macro_rules! apply_to_prop_mut {
     ($dyn_prop_mut:expr, $closure:expr) => {
         $crate::contract::properties::dynamic::__macro::apply_to_dyn!(
-            $crate::contract::properties::dynamic::property,
+            $crate::contract::properties::dynamic,
             DynTpPropertyMut,
             DynTpPrimitiveMut,
             DynTpVecMut,
-- 
2.43.0


From 2d519bc757ff02867c6134347dce033ddf749e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 17/24] fix: substitute leaves look-alikes and malformed
 placeholders alone

A placeholder in an attribute was found by searching the attribute's text, so
string literals and longer macro names that contain it were rewritten too. A
placeholder with arguments was replaced and the arguments dropped silently, and
substituting tokens that contain a placeholder recursed until the compiler
crashed.
---
 crates/rsharp/rust/macro/src/substitute.rs | 59 ++++++++++++++--------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/crates/rsharp/rust/macro/src/substitute.rs b/crates/rsharp/rust/macro/src/substitute.rs
index 5a307ae..41897a1 100644
--- a/crates/rsharp/rust/macro/src/substitute.rs
+++ b/crates/rsharp/rust/macro/src/substitute.rs
@@ -1,6 +1,4 @@
-use std::str::FromStr;
-
-use proc_macro2::TokenStream;
+use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
 use quote::ToTokens;
 use syn::{self, visit_mut::VisitMut, Error, Result};
 
@@ -12,6 +10,38 @@ impl VisitAndSub {
         syn::parse2::<syn::Expr>(value.clone())?;
         Ok(Self { value })
     }
+
+    /// Replaces each `substitute!()` among `tokens`, at any depth of nesting.
+    fn sub_tokens(&self, tokens: TokenStream) -> TokenStream {
+        let tokens: Vec<TokenTree> = tokens.into_iter().collect();
+        let mut result = TokenStream::new();
+        let mut i = 0;
+        while i < tokens.len() {
+            match &tokens[i..] {
+                [TokenTree::Ident(ident), TokenTree::Punct(bang), TokenTree::Group(args), ..]
+                    if ident == "substitute"
+                        && bang.as_char() == '!'
+                        && args.delimiter() == Delimiter::Parenthesis
+                        && args.stream().is_empty() =>
+                {
+                    result.extend(self.value.clone());
+                    i += 3;
+                }
+                [TokenTree::Group(group), ..] => {
+                    let mut new = Group::new(group.delimiter(), self.sub_tokens(group.stream()));
+                    new.set_span(group.span());
+                    result.extend([TokenTree::Group(new)]);
+                    i += 1;
+                }
+                [token, ..] => {
+                    result.extend([token.clone()]);
+                    i += 1;
+                }
+                [] => unreachable!(),
+            }
+        }
+        result
+    }
 }
 impl VisitMut for VisitAndSub {
     fn visit_expr_mut(&mut self, node: &mut syn::Expr) {
@@ -19,7 +49,8 @@ impl VisitMut for VisitAndSub {
         let new_node = match node {
             E::Macro(ref mut m) => {
                 let macro_name = m.mac.path.segments.last().unwrap().ident.to_string();
-                if macro_name == "substitute" {
+                // A placeholder takes no arguments: with any, it is left for the compiler to reject
+                if macro_name == "substitute" && m.mac.tokens.is_empty() {
                     if !m.attrs.is_empty() {
                         return; // Don't try to step on another substitution's toes
                     }
@@ -31,29 +62,15 @@ impl VisitMut for VisitAndSub {
             _ => return syn::visit_mut::visit_expr_mut(self, node),
         };
         if let Some(new_node) = new_node {
+            // The substituted tokens are final, placeholders in them included
             *node = new_node;
+            return;
         }
         syn::visit_mut::visit_expr_mut(self, node);
     }
 
     fn visit_attribute_mut(&mut self, node: &mut syn::Attribute) {
-        let token_str = node.tokens.to_string();
-
-        let mut try_pattern = |pattern| {
-            let splits: Vec<_> = token_str.split(pattern).into_iter().collect();
-            if splits.len() > 1 {
-                let new_str = splits.as_slice().join(&self.value.to_string());
-                let new_tokens = TokenStream::from_str(&new_str)
-                    .expect("Didn't expect to be unable to parse tokenstream from attr");
-                node.tokens = new_tokens;
-                Ok(())
-            } else {
-                Err(())
-            }
-        };
-
-        let _result = try_pattern("substitute! ()").or_else(|_| try_pattern("substitute ! ()"));
-
+        node.tokens = self.sub_tokens(std::mem::take(&mut node.tokens));
         syn::visit_mut::visit_attribute_mut(self, node);
     }
 }
-- 
2.43.0


From 3d9415cf083f50975b977cc42ae8664e6a6fc1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 18/24] fix: serialize: compare U32 and U64 tags with their own
 kinds

TpPrimitive::U32 equalled TpPrimitiveKind::U64, and neither U32 nor U64
equalled its own kind.
---
 client/serialize/rust/src/types/eq_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/types/eq_impl.rs b/client/serialize/rust/src/types/eq_impl.rs
index cb93862..0d15b87 100644
--- a/client/serialize/rust/src/types/eq_impl.rs
+++ b/client/serialize/rust/src/types/eq_impl.rs
@@ -67,7 +67,8 @@ impl PartialEq<crate::primitive::TpPrimitiveKind> for crate::primitive::TpPrimit
         match (*self, *other) {
             (Self::U8, O::U8)
             | (Self::U16, O::U16)
-            | (Self::U32, O::U64)
+            | (Self::U32, O::U32)
+            | (Self::U64, O::U64)
             | (Self::I8, O::I8)
             | (Self::I16, O::I16)
             | (Self::I32, O::I32)
-- 
2.43.0


From e54a82cf5f44f5f47d69cdc837230c72feca4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 19/24] fix: serialize: refuse a state of unknown type instead
 of panicking

The error message unwrapped the name of the type, which a type that is not
in the schema does not have.
---
 client/serialize/rust/src/deserializer/new/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 7e0fa65..5790962 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -320,7 +320,7 @@ fn validate_obj_matches_contract<'a, C: rs::Contract>(
         if obj_state_t.p_type() != *expected_typ {
             return Err(eyre!(
                 "state {i}'s type was {:?} but expected {:?}",
-                obj_state_t.p_type().variant_name().unwrap(),
+                obj_state_t.p_type(),
                 *expected_typ,
             ));
         }
-- 
2.43.0


From 6080d1bb46f612d019b6d8b8778445edc0afed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 20/24] fix: serialize: refuse a state index that is out of
 range

The module's documentation promises this check; without it, reading such a
buffer panicked.
---
 client/serialize/rust/src/deserializer/new/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 5790962..4e1725b 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -310,13 +310,15 @@ fn validate_obj_matches_contract<'a, C: rs::Contract>(
     let obj_states_t = obj_states_t
         .into_iter()
         .map(|s: fb::StateHandle| StatesIdx(usize::try_from(s.idx()).unwrap()))
-        .map(|s_idx: StatesIdx| states_t.get(s_idx.0));
+        .map(|s_idx: StatesIdx| (s_idx.0 < states_t.len()).then(|| states_t.get(s_idx.0)));
 
     let zip_states_and_expected_types =
         std::iter::zip(obj_states_t, C::States::enumerate_types().into_iter());
 
     // Check that state types match contract
     for (i, (obj_state_t, expected_typ)) in zip_states_and_expected_types.enumerate() {
+        let obj_state_t: fb::State =
+            obj_state_t.ok_or_else(|| eyre!("state {i} was not in the flatbuffer"))?;
         if obj_state_t.p_type() != *expected_typ {
             return Err(eyre!(
                 "state {i}'s type was {:?} but expected {:?}",
-- 
2.43.0


From 18892b6b8acfdcc238a9d5310f0d22fa9c82f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 21/24] fix: serialize: refuse a string state without a string

The string is optional in the schema, so a buffer without it is valid, but
reading it panicked.
---
 client/serialize/rust/src/deserializer/new/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 4e1725b..8f4aa96 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -387,7 +387,14 @@ impl<'a> Deserializer<'a> {
                 P::Bool => helper!(obj_state_t.p_as_bool().unwrap().v()),
                 P::F32 => helper!(obj_state_t.p_as_f32().unwrap().v()),
                 P::F64 => helper!(obj_state_t.p_as_f64().unwrap().v()),
-                P::FbString => helper!(obj_state_t.p_as_fb_string().unwrap().v().unwrap()),
+                P::FbString => {
+                    let s = obj_state_t
+                        .p_as_fb_string()
+                        .unwrap()
+                        .v()
+                        .ok_or_else(|| eyre!("String state was missing its value"))?;
+                    helper!(s)
+                }
                 P::tp_serialize_object_ObjectHandle => {
                     // Figure out what object was referenced in the state, and track it.
                     let referenced_obj_handle_t: fb::ObjectHandle = obj_state_t
-- 
2.43.0


From 212bf8f867baff25ae5251c035bb5cf6ce10fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 22/24] fix: serialize: return an error when objects are
 deserialized twice

Asking for the objects of a contract a second time created a duplicate in
the baseline and then panicked.
---
 client/serialize/rust/src/deserializer/new/mod.rs     | 3 +++
 client/serialize/rust/src/deserializer/new/objects.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 8f4aa96..e211343 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -145,6 +145,9 @@ impl<'a> Deserializer<'a> {
         let contract_idx = self.b.inst_contracts.get_idx(contract.handle());
 
         for (obj_idx, _obj_t) in objects_with_contract_idx(contract_idx, objects_t) {
+            if self.inst_objects.is_instantiated_idx(obj_idx) {
+                return Err(eyre!("Object was already deserialized"));
+            }
             let obj_valid: ValidatedObject = validate_obj_matches_contract(
                 obj_idx,
                 contract,
diff --git a/client/serialize/rust/src/deserializer/new/objects.rs b/client/serialize/rust/src/deserializer/new/objects.rs
index 67cb95b..1246edf 100644
--- a/client/serialize/rust/src/deserializer/new/objects.rs
+++ b/client/serialize/rust/src/deserializer/new/objects.rs
@@ -17,6 +17,10 @@ impl InstantiatedObjects {
         )
     }
 
+    pub fn is_instantiated_idx(&self, idx: ObjectsIdx) -> bool {
+        self.0.contains_right(&idx)
+    }
+
     pub fn get_idx(&self, handle: rs::ObjectHandle) -> Result<ObjectsIdx> {
         self.0
             .get_by_left(&handle)
-- 
2.43.0


From 82a689226c5b993b317a850998147d31c991004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 23/24] fix: serialize: finishing reports objects that were not
 deserialized

The module documents that objects of a contract that was not registered make
deserialization fail; they were silently left out.
---
 client/serialize/rust/src/deserializer/new/mod.rs     | 8 ++++++++
 client/serialize/rust/src/deserializer/new/objects.rs | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index e211343..5b88f0b 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -177,6 +177,14 @@ impl<'a> Deserializer<'a> {
             state_ref.value = o_handle;
         }
 
+        let num_objects = self.b.base_t.objects().map_or(0, |o| o.len());
+        if self.inst_objects.len() != num_objects {
+            return Err(eyre!(
+                "Not all serialized objects were deserialized. \
+                Were all contracts registered, and their objects deserialized?"
+            ));
+        }
+
         // This should also remove the null object
         self.b
             .base
diff --git a/client/serialize/rust/src/deserializer/new/objects.rs b/client/serialize/rust/src/deserializer/new/objects.rs
index 1246edf..d14aea4 100644
--- a/client/serialize/rust/src/deserializer/new/objects.rs
+++ b/client/serialize/rust/src/deserializer/new/objects.rs
@@ -17,6 +17,10 @@ impl InstantiatedObjects {
         )
     }
 
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+
     pub fn is_instantiated_idx(&self, idx: ObjectsIdx) -> bool {
         self.0.contains_right(&idx)
     }
-- 
2.43.0


From 8efd95ac2cff2cbbde2c7469afb01f192e5ee2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 24/24] fix: serialize: refuse to serialize a contract twice

The second pass then filled in only one of the two copies, and the other one
kept the dummy offset, so the buffer was corrupt.
---
 client/serialize/rust/src/serializer/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/serialize/rust/src/serializer/mod.rs b/client/serialize/rust/src/serializer/mod.rs
index a66a01e..712e451 100644
--- a/client/serialize/rust/src/serializer/mod.rs
+++ b/client/serialize/rust/src/serializer/mod.rs
@@ -47,6 +47,13 @@ impl<'b> Serializer<'b> {
     pub fn serialize<C: rs::Contract>(&mut self, contract: &C) -> Result<()> {
         let fbb = &mut self.fbb;
         let contract_data: &rs::ContractData = self.baseline.contract_data(contract.handle())?;
+        if self
+            .handle_map
+            .contracts
+            .contains_left(&contract.handle())
+        {
+            return Err(eyre!("Contract was already serialized"));
+        }
 
         self.contracts.push(Self::serialize_contract::<C>(fbb)?);
         self.handle_map
-- 
2.43.0

