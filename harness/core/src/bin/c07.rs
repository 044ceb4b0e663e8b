//! Every property type through every dynamic wrapper and back, and into each of
//! the other types.
use tp_client::contract::properties::channels::dyn_channel::*;
use tp_client::contract::properties::channels::dyn_handle::*;
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::dyn_handle::*;
use tp_client::contract::properties::states::dyn_state::*;
use tp_client::contract::properties::states::id::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::properties::traits::*;
use vcore::report::h64;
use vcore::types::*;
use vcore::world::{chh, sh};
use vcore::*;

macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}
type Res = Result<(), String>;
const ALL: [(usize, bool); 28] = {
    let mut a = [(0, false); 28];
    let mut i = 0;
    while i < 28 {
        a[i] = (i % 14, i >= 14);
        i += 1;
    }
    a
};

fn name(t: usize, l: bool) -> String {
    if l { format!("Vec<{}>", TYPE_NAMES[t]) } else { TYPE_NAMES[t].to_string() }
}

fn tag_ok(what: &str, got: TpPropertyType, ty: usize, list: bool) -> Res {
    ensure!(tag_is(got, ty, list), "{what} of {} reports the tag {got:?}", name(ty, list));
    ensure!(got == tag(ty, list), "{what} of {}: tag {got:?} is not equal to itself", name(ty, list));
    ensure!(format!("{:?}", got.primitive_type()) == TYPE_NAMES[ty], "primitive_type() of {got:?} is {:?}", got.primitive_type());
    Ok(())
}

// --- what type-directed dispatch runs with
fn seen_prop<T: Prop>(x: T) -> Val { x.val() }
fn seen_prop_by_ref<T: Prop>(x: &T) -> Val { x.val() }
trait View { fn seen(&self) -> Val; }
macro_rules! views { ($($t:ty),*) => {$(
    impl View for $t { fn seen(&self) -> Val { Prop::val(self) } }
    impl View for [$t] { fn seen(&self) -> Val { Prop::val(&self.to_vec()) } }
)*} }
views!(u8, u16, u32, u64, i8, i16, i32, i64, bool, f32, f64, String, tp_client::object::ObjectHandle, tp_client::contract::ContractDataHandle);
fn seen_view<T: View + ?Sized>(x: &T) -> Val { x.seen() }
fn seen_view_mut<T: View + ?Sized>(x: &mut T) -> Val { x.seen() }
fn seen_sid<T: Prop>(x: StateId<T>) -> (usize, bool, String) { (T::TY, T::LIST, format!("{x:?}")) }
fn seen_cid<T: Prop>(x: ChannelId<T>) -> (usize, bool, String) { (T::TY, T::LIST, format!("{x:?}")) }
fn seen_sh<T: Prop>(x: StateHandle<T>) -> (usize, bool, (usize, u64)) { (T::TY, T::LIST, raw(x)) }
fn seen_ch<T: Prop>(x: ChannelHandle<T>) -> (usize, bool, (usize, u64)) { (T::TY, T::LIST, raw(x)) }
fn seen_chan<T: Prop>(x: Channel<T>) -> (usize, bool, Frames) { (T::TY, T::LIST, chan_frames(&x)) }
fn seen_chan_ref<T: Prop>(x: &Channel<T>) -> (usize, bool, Frames) { (T::TY, T::LIST, chan_frames(x)) }
fn seen_chan_mut<T: Prop>(x: &mut Channel<T>) -> (usize, bool, Frames) { (T::TY, T::LIST, chan_frames(x)) }

fn props<T: Prop>(v: &Val) -> Res {
    let (ty, list) = (T::TY, T::LIST);
    let n = name(ty, list);
    let x = T::from_val(v);
    tag_ok("a plain value", ITpProperty::prop_type(&x), ty, list)?;
    tag_ok("PROPERTY_TYPE", T::PROPERTY_TYPE, ty, list)?;
    let d = x.clone().dyn_prop();
    tag_ok("DynTpProperty", d.prop_type(), ty, list)?;
    tag_ok("DynTpProperty as ITpProperty", ITpProperty::prop_type(&d), ty, list)?;
    match &d {
        DynTpProperty::Primitive(p) => tag_ok("DynTpPrimitive", p.prop_type(), ty, list)?,
        DynTpProperty::Vec(p) => tag_ok("DynTpVec", p.prop_type(), ty, list)?,
    }
    ensure!(dyn_val(&d) == *v, "DynTpProperty of {n} holds {:?}, given {v:?}", dyn_val(&d));
    ensure!(dyn_val(&d.clone()) == *v, "a clone of a DynTpProperty of {n} differs");
    for (u, l) in ALL {
        let got = dispatch!(u, l, U => U::from_dyn_prop(d.clone()).map(|x| x.val()));
        match got {
            Ok(g) => {
                ensure!((u, l) == (ty, list), "a DynTpProperty of {n} unwraps as {}", name(u, l));
                ensure!(g == *v, "a DynTpProperty of {n} unwraps to {g:?}, given {v:?}");
            }
            Err(e) => ensure!((u, l) != (ty, list), "a DynTpProperty of {n} does not unwrap: {e}"),
        }
    }
    // the halves
    let (p, w): (Result<DynTpPrimitive, _>, Result<DynTpVec, _>) = (d.clone().try_into(), d.clone().try_into());
    ensure!(p.is_ok() != list && w.is_ok() == list, "a DynTpProperty of {n} unwraps as the wrong half");
    if let Ok(p) = p {
        ensure!(dyn_val(&DynTpProperty::from(p)) == *v, "re-wrapping the half changed {n}");
    }
    if let Ok(w) = w {
        ensure!(dyn_val(&DynTpProperty::from(w)) == *v, "re-wrapping the half changed {n}");
    }
    // views
    let mut x = x;
    {
        let r = x.dyn_ref();
        tag_ok("DynTpPropertyRef", r.prop_type(), ty, list)?;
        match &r {
            DynTpPropertyRef::Primitive(p) => tag_ok("DynTpPrimitiveRef", p.prop_type(), ty, list)?,
            DynTpPropertyRef::Vec(p) => tag_ok("DynTpVecRef", p.prop_type(), ty, list)?,
        }
        ensure!(ref_val(&r) == *v, "DynTpPropertyRef of {n} shows {:?}, given {v:?}", ref_val(&r));
        let c = r.clone();
        tag_ok("a cloned DynTpPropertyRef", c.prop_type(), ty, list)?;
        ensure!(ref_val(&c) == *v, "a cloned DynTpPropertyRef of {n} differs");
    }
    {
        let r = x.dyn_mut();
        tag_ok("DynTpPropertyMut", r.prop_type(), ty, list)?;
        match &r {
            DynTpPropertyMut::Primitive(p) => tag_ok("DynTpPrimitiveMut", p.prop_type(), ty, list)?,
            DynTpPropertyMut::Vec(p) => tag_ok("DynTpVecMut", p.prop_type(), ty, list)?,
        }
        ensure!(mut_val(&r) == *v, "DynTpPropertyMut of {n} shows {:?}, given {v:?}", mut_val(&r));
    }
    // states
    let mut s = State::new(x.clone());
    ensure!(dyn_val(&T::dyn_state(State::new(x.clone())).0) == *v, "DynState of {n} differs");
    tag_ok("DynState", T::dyn_state(State::new(x.clone())).0.prop_type(), ty, list)?;
    ensure!(ref_val(&T::dyn_state_ref(&s).0) == *v, "DynStateRef of {n} differs");
    tag_ok("DynStateRef", T::dyn_state_ref(&s).0.prop_type(), ty, list)?;
    ensure!(mut_val(&T::dyn_state_mut(&mut s).0) == *v, "DynStateMut of {n} differs");
    tag_ok("DynStateMut", T::dyn_state_mut(&mut s).0.prop_type(), ty, list)?;
    let inner: DynTpProperty = DynState::from(d.clone()).into();
    ensure!(dyn_val(&inner) == *v, "DynState from and into DynTpProperty changed {n}");
    // dispatch
    let mut d = d;
    ensure!(apply_to_prop!(d.clone(), seen_prop) == *v, "apply_to_prop of {n} ran with {:?}", apply_to_prop!(d.clone(), seen_prop));
    ensure!(apply_to_prop!(&d, seen_prop_by_ref) == *v, "apply_to_prop of a reference to {n} ran with another value");
    let got = tp_client::apply_to_prop_ref!(ref_of(&d), seen_view);
    ensure!(got == *v, "apply_to_prop_ref of {n} ran with {got:?}");
    let m = DynTpPropertyMut::from(&mut d);
    let got = tp_client::apply_to_prop_mut!(m, seen_view_mut);
    ensure!(got == *v, "apply_to_prop_mut of {n} ran with {got:?}");
    Ok(())
}

fn channels<T: Prop>(f: &Frames) -> Res {
    let (ty, list) = (T::TY, T::LIST);
    let n = name(ty, list);
    let want = (ty, list, f.clone());
    let make = || T::dyn_chan(to_chan::<T>(f));
    let d = make();
    tag_ok("DynChannel", d.prop_type(), ty, list)?;
    match &d {
        DynChannel::Primitive(p) => tag_ok("DynChannelPrimitive", p.prop_type(), ty, list)?,
        DynChannel::Vec(p) => tag_ok("DynChannelVec", p.prop_type(), ty, list)?,
    }
    ensure!(dyn_chan_frames(&d) == want, "DynChannel of {n} holds other keyframes");
    for (u, l) in ALL {
        let got = dispatch!(u, l, U => U::from_dyn_chan(make()).map(|c| chan_frames(&c)));
        match got {
            Ok(g) => {
                ensure!((u, l) == (ty, list), "a DynChannel of {n} unwraps as {}", name(u, l));
                ensure!(g == *f, "a DynChannel of {n} unwraps to other keyframes");
            }
            Err(e) => ensure!((u, l) != (ty, list), "a DynChannel of {n} does not unwrap: {e}"),
        }
    }
    let mut c = to_chan::<T>(f);
    {
        let r = T::dyn_chan_ref(&c);
        tag_ok("DynChannelRef", r.prop_type(), ty, list)?;
        match &r {
            DynChannelRef::Primitive(p) => tag_ok("DynChannelPrimitiveRef", p.prop_type(), ty, list)?,
            DynChannelRef::Vec(p) => tag_ok("DynChannelVecRef", p.prop_type(), ty, list)?,
        }
        ensure!(chan_ref_frames(&r) == want, "DynChannelRef of {n} shows other keyframes");
        let c2 = r.clone();
        ensure!(chan_ref_frames(&c2) == want, "a cloned DynChannelRef of {n} shows other keyframes");
        let got = apply_to_channel_ref!(r, seen_chan_ref);
        ensure!(got == want, "apply_to_channel_ref of {n} ran with {got:?}");
    }
    {
        let r = T::dyn_chan_mut(&mut c);
        tag_ok("DynChannelMut", r.prop_type(), ty, list)?;
        match &r {
            DynChannelMut::Primitive(p) => tag_ok("DynChannelPrimitiveMut", p.prop_type(), ty, list)?,
            DynChannelMut::Vec(p) => tag_ok("DynChannelVecMut", p.prop_type(), ty, list)?,
        }
        ensure!(chan_mut_frames(&r) == want, "DynChannelMut of {n} shows other keyframes");
        let got = apply_to_channel_mut!(r, seen_chan_mut);
        ensure!(got == want, "apply_to_channel_mut of {n} ran with {got:?}");
    }
    let got = apply_to_channel!(d, seen_chan);
    ensure!(got == want, "apply_to_channel of {n} ran with {got:?}");
    Ok(())
}

fn ids<T: Prop>(idx: usize, h: (usize, u64)) -> Res {
    let (ty, list) = (T::TY, T::LIST);
    let n = name(ty, list);
    let contract = chandle(h.0, h.1);
    let s = StateId::<T>::new(idx, contract);
    ensure!(s.contract() == contract && raw(s.contract()) == h, "StateId of {n} names another contract");
    let c = ChannelId::<T>::new(idx, contract);
    ensure!(c.contract() == contract && raw(c.contract()) == h, "ChannelId of {n} names another contract");
    let (ws, wc) = (format!("{s:?}"), format!("{c:?}"));
    for route in 0..2 {
        let ds = || if route == 0 { T::dyn_sid(s) } else { DynStateId::new(contract, idx, tag(ty, list)) };
        let dc = || if route == 0 { T::dyn_cid(c) } else { DynChannelId::new(contract, idx, tag(ty, list)) };
        for (u, l) in ALL {
            let got = dispatch!(u, l, U => U::from_dyn_sid(ds()).map(|x| (format!("{x:?}"), x == StateId::new(idx, contract))));
            match got {
                Ok(g) => {
                    ensure!((u, l) == (ty, list), "a DynStateId of {n} (route {route}) unwraps as {}", name(u, l));
                    ensure!(g == (ws.clone(), true), "a DynStateId of {n} (route {route}) unwraps to {}, given {ws}", g.0);
                }
                Err(e) => ensure!((u, l) != (ty, list), "a DynStateId of {n} (route {route}) does not unwrap: {e}"),
            }
            let got = dispatch!(u, l, U => U::from_dyn_cid(dc()).map(|x| (format!("{x:?}"), x == ChannelId::new(idx, contract))));
            match got {
                Ok(g) => {
                    ensure!((u, l) == (ty, list), "a DynChannelId of {n} (route {route}) unwraps as {}", name(u, l));
                    ensure!(g == (wc.clone(), true), "a DynChannelId of {n} (route {route}) unwraps to {}, given {wc}", g.0);
                }
                Err(e) => ensure!((u, l) != (ty, list), "a DynChannelId of {n} (route {route}) does not unwrap: {e}"),
            }
        }
        let got = apply_to_state_id!(ds(), seen_sid);
        ensure!(got == (ty, list, ws.clone()), "apply_to_state_id of {n} ran with {got:?}, given {ws}");
        let got = apply_to_channel_id!(dc(), seen_cid);
        ensure!(got == (ty, list, wc.clone()), "apply_to_channel_id of {n} ran with {got:?}, given {wc}");
    }
    Ok(())
}

fn handles<T: Prop>(h: (usize, u64)) -> Res {
    let (ty, list) = (T::TY, T::LIST);
    let n = name(ty, list);
    let (s, c) = (sh::<T>(h), chh::<T>(h));
    tag_ok("StateHandle", IStateHandle::prop_type(&s), ty, list)?;
    tag_ok("ChannelHandle", IChannelHandle::prop_type(&c), ty, list)?;
    let (ds, dc) = (T::dyn_shandle(s), T::dyn_chandle(c));
    tag_ok("DynStateHandle", IStateHandle::prop_type(&ds), ty, list)?;
    tag_ok("DynChannelHandle", IChannelHandle::prop_type(&dc), ty, list)?;
    ensure!(ds == ds.clone() && dc == dc.clone(), "a cloned handle of {n} differs");
    for (u, l) in ALL {
        let got = dispatch!(u, l, U => U::from_dyn_shandle(ds).map(raw));
        match got {
            Ok(g) => {
                ensure!((u, l) == (ty, list), "a DynStateHandle of {n} unwraps as {}", name(u, l));
                ensure!(g == h, "a DynStateHandle of {n} unwraps to {g:?}, given {h:?}");
            }
            Err(e) => ensure!((u, l) != (ty, list), "a DynStateHandle of {n} does not unwrap: {e}"),
        }
        let got = dispatch!(u, l, U => U::from_dyn_chandle(dc).map(raw));
        match got {
            Ok(g) => {
                ensure!((u, l) == (ty, list), "a DynChannelHandle of {n} unwraps as {}", name(u, l));
                ensure!(g == h, "a DynChannelHandle of {n} unwraps to {g:?}, given {h:?}");
            }
            Err(e) => ensure!((u, l) != (ty, list), "a DynChannelHandle of {n} does not unwrap: {e}"),
        }
        // handles to storage of different types are different, whatever their numbers
        let o = dispatch!(u, l, U => U::dyn_shandle(sh::<U>(h)));
        ensure!((o == ds) == ((u, l) == (ty, list)), "DynStateHandle of {n} == the one of {} is {}", name(u, l), o == ds);
        let o = dispatch!(u, l, U => U::dyn_chandle(chh::<U>(h)));
        ensure!((o == dc) == ((u, l) == (ty, list)), "DynChannelHandle of {n} == the one of {} is {}", name(u, l), o == dc);
    }
    let got = tp_client::apply_to_state_handle!(ds, seen_sh);
    ensure!(got == (ty, list, h), "apply_to_state_handle of {n} ran with {got:?}");
    let got = tp_client::apply_to_channel_handle!(dc, seen_ch);
    ensure!(got == (ty, list, h), "apply_to_channel_handle of {n} ran with {got:?}");
    Ok(())
}

/// The type tags themselves.
fn tags() -> Res {
    for a in ALL {
        for b in ALL {
            ensure!((tag(a.0, a.1) == tag(b.0, b.1)) == (a == b), "tags of {} and {} compare wrongly", name(a.0, a.1), name(b.0, b.1));
        }
    }
    for (i, t) in TAGS.iter().enumerate() {
        ensure!(dispatch_prim!(i, T => <T as ITpData>::DATA_TYPE) == *t, "DATA_TYPE of {}", TYPE_NAMES[i]);
    }
    Ok(())
}

fn main() {
    let mut rep = Report::new("C07", "All 14 primitive and 14 list types, each with random and boundary payloads (NaN payloads, signed zeros, extreme integers, empty and long lists and strings, arbitrary handles), through every wrapper: dynamic values, views, states, channels, ids and handles, by every conversion, into each of the 28 types, and through the type-directed dispatch macros. A case is one payload of one type and wrapper family, distinct by its bits");
    rep.case("tags", tags);
    let n = rep.scale(2_000, 150_000);
    for case in 0..n {
        if rep.stop() {
            break;
        }
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        let mut r = Rng::new(rep.seed, case);
        // a few cases past the sizes of 8 and 16 bit lengths
        let long = match case % 2000 { _ if cfg!(miri) => 0, 321 => 66_000, 1321 => 300, _ => 0 };
        let some: Vec<usize> = (0..3).map(|_| r.below(28)).collect();
        for (k, (ty, list)) in ALL.into_iter().enumerate() {
            let long = if long == 300 || (long > 0 && (list || some.contains(&k) || ty == 11)) { long } else { 0 };
            types::LONG.with(|l| l.set(long));
            if long > 0 {
                rep.count("long payloads", 1);
            }
            let v = gen_val(ty, list, &mut r);
            let f = gen_frames(ty, list, &mut r);
            let idx = if r.chance(1, 2) { r.below(5) } else { r.next() as usize };
            let h = if r.chance(1, 2) { (r.below(4), r.below(4) as u64) } else { ((r.next() >> 1) as usize, r.next()) };
            let n = name(ty, list);
            rep.case(&format!("value {n}"), || dispatch!(ty, list, T => props::<T>(&v)));
            rep.case(&format!("channel {n}"), || dispatch!(ty, list, T => channels::<T>(&f)));
            rep.case(&format!("id {n}"), || dispatch!(ty, list, T => ids::<T>(idx, h)));
            rep.case(&format!("handle {n}"), || dispatch!(ty, list, T => handles::<T>(h)));
            rep.eval((1, &v), true);
            rep.eval((2, ty, list, h64(&f)), true);
            rep.eval((3, ty, list, idx, h), true);
            rep.eval((4, ty, list, h), true);
            rep.count(&format!("payloads of {n}"), 1);
            rep.count("unwrap attempts into 28 types", 28 * 8);
            types::LONG.with(|l| l.set(0));
            if long > 0 {
                continue;
            }
            rep.sample(|| format!("{n}: value {v:?}, {} keyframes, id {idx}, handle {h:?}", f.len()));
        }
    }
    rep.finish()
}
