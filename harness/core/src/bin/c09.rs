//! Borrowed dynamic views: what they show, where it lives, and what writing
//! through them changes.
use better_borrow::{BBorrow, BBorrowMut};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::dyn_channel::*;
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::dyn_handle::*;
use tp_client::contract::properties::states::dyn_state::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::Contract;
use vcore::types::*;
use vcore::world::CAll;
use vcore::*;

type Res = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

fn slice_at<T>(s: &[T]) -> (usize, usize) {
    (s.as_ptr() as usize, std::mem::size_of_val(s))
}
fn val_at<T>(s: &T) -> (usize, usize) {
    (s as *const T as usize, std::mem::size_of::<T>())
}

/// Where the contents of an owned dynamic value are.
fn dyn_at(d: &DynTpProperty) -> (usize, usize) {
    macro_rules! m {
        ($e:expr, $en:ident, $f:ident) => {
            match $e {
                $en::U8(x) => $f(x), $en::U16(x) => $f(x), $en::U32(x) => $f(x), $en::U64(x) => $f(x),
                $en::I8(x) => $f(x), $en::I16(x) => $f(x), $en::I32(x) => $f(x), $en::I64(x) => $f(x),
                $en::Bool(x) => $f(x), $en::F32(x) => $f(x), $en::F64(x) => $f(x), $en::String(x) => $f(x),
                $en::ObjectHandle(x) => $f(x), $en::ContractDataHandle(x) => $f(x),
            }
        };
    }
    match d {
        DynTpProperty::Primitive(p) => m!(p, DynTpPrimitive, val_at),
        DynTpProperty::Vec(p) => m!(p, DynTpVec, slice_at),
    }
}

struct N {
    shared: u64,
    mutable: u64,
}

fn shows(n: &mut N, what: &str, r: DynTpPropertyRef<'_>, v: &Val, at: (usize, usize)) -> Res {
    n.shared += 1;
    ensure!(tag_is(r.prop_type(), v.ty, v.list), "{what}: type is {:?}, owner holds {v:?}", r.prop_type());
    ensure!(ref_val(&r) == *v, "{what}: shows {:?}, owner holds {v:?}", ref_val(&r));
    ensure!(ref_addr(&r) == at, "{what}: is a copy, not a view (at {:?}, owner at {at:?})", ref_addr(&r));
    let (c, d) = (r.clone(), r);
    ensure!(ref_val(&c) == *v && ref_addr(&c) == at && ref_val(&d) == *v, "{what}: its copy is another view");
    Ok(())
}
/// Checks a mutable view, then stores `new` through it.
fn stores(n: &mut N, what: &str, m: DynTpPropertyMut<'_>, v: &Val, at: (usize, usize), new: &Val) -> Res {
    n.mutable += 1;
    ensure!(tag_is(m.prop_type(), v.ty, v.list), "{what}: type is {:?}, owner holds {v:?}", m.prop_type());
    ensure!(mut_val(&m) == *v, "{what}: shows {:?}, owner holds {v:?}", mut_val(&m));
    ensure!(mut_addr(&m) == at, "{what}: is a copy, not a view");
    mut_put(m, new);
    Ok(())
}
fn others_same(what: &str, vals: &[Val], got: &[Val], i: usize, new: &Val) -> Res {
    for (k, g) in got.iter().enumerate() {
        let want = if k == i { new } else { &vals[k] };
        ensure!(g == want, "{what}: owner {k} holds {g:?} after a store to owner {i}, expected {want:?}");
    }
    Ok(())
}

/// Five values of a type, and a replacement of the same length for one of them.
fn cast(ty: usize, list: bool, r: &mut Rng) -> (Vec<Val>, usize, Val) {
    let vals: Vec<Val> = (0..5).map(|_| gen_val(ty, list, r)).collect();
    let i = r.below(5);
    let mut new = vals[i].clone();
    for c in new.cells.iter_mut() {
        if r.chance(3, 4) {
            *c = gen_cell(ty, r);
        }
    }
    (vals, i, new)
}

fn plain(ty: usize, list: bool, r: &mut Rng, n: &mut N) -> Res {
    let (vals, i, new) = cast(ty, list, r);
    let v = &vals[i];
    let route = r.below(6);
    dispatch_prim!(ty, T => {
        if list {
            let mut own: Vec<Vec<T>> = vals.iter().map(|v| <Vec<T> as Prop>::from_val(v)).collect();
            let at = slice_at(&own[i]);
            shows(n, "From<&Vec>", DynTpPropertyRef::from(&own[i]), v, at)?;
            shows(n, "From<&[T]>", DynTpPropertyRef::from(own[i].as_slice()), v, at)?;
            shows(n, "half From<&Vec>", DynTpVecRef::from(&own[i]).into(), v, at)?;
            shows(n, "half From<&[T]>", DynTpVecRef::from(&own[i][..]).into(), v, at)?;
            let m = match route {
                0 => DynTpPropertyMut::from(&mut own[i]),
                1 => DynTpPropertyMut::from(own[i].as_mut_slice()),
                2 => DynTpVecMut::from(&mut own[i]).into(),
                3 => DynTpPropertyMut::Vec(DynTpVecMut::from(&mut own[i][..])),
                _ => DynTpVecMut::from(&mut own[i][..]).into(),
            };
            stores(n, "mutable view of a Vec", m, v, at, &new)?;
            let got: Vec<Val> = own.iter().map(|x| Prop::val(x)).collect();
            others_same("mutable view of a Vec", &vals, &got, i, &new)?;
            // part of a list
            if new.cells.len() > 1 {
                let (a, b) = (r.below(new.cells.len()), r.below(new.cells.len()));
                let (a, b) = (a.min(b), a.max(b));
                let part = Val { ty, list: true, cells: new.cells[a..b].to_vec() };
                let at = slice_at(&own[i][a..b]);
                shows(n, "view of part of a list", DynTpPropertyRef::from(&own[i][a..b]), &part, at)?;
                let mut p2 = part.clone();
                for c in p2.cells.iter_mut() { *c = gen_cell(ty, r); }
                stores(n, "mutable view of part of a list", DynTpPropertyMut::from(&mut own[i][a..b]), &part, at, &p2)?;
                let mut whole = new.clone();
                whole.cells.splice(a..b, p2.cells);
                let got: Vec<Val> = own.iter().map(|x| Prop::val(x)).collect();
                others_same("mutable view of part of a list", &vals, &got, i, &whole)?;
            }
        } else {
            let mut own: Vec<T> = vals.iter().map(|v| <T as Prop>::from_val(v)).collect();
            let at = val_at(&own[i]);
            shows(n, "From<&T>", DynTpPropertyRef::from(&own[i]), v, at)?;
            shows(n, "half From<&T>", DynTpPrimitiveRef::from(&own[i]).into(), v, at)?;
            let m = match route {
                0 | 1 => DynTpPropertyMut::from(&mut own[i]),
                2 => DynTpPropertyMut::Primitive(DynTpPrimitiveMut::from(&mut own[i])),
                _ => DynTpPrimitiveMut::from(&mut own[i]).into(),
            };
            stores(n, "mutable view of a plain value", m, v, at, &new)?;
            let got: Vec<Val> = own.iter().map(|x| Prop::val(x)).collect();
            others_same("mutable view of a plain value", &vals, &got, i, &new)?;
        }
    });
    Ok(())
}

fn dynamic(ty: usize, list: bool, r: &mut Rng, n: &mut N) -> Res {
    let (vals, i, new) = cast(ty, list, r);
    let v = &vals[i];
    let mut own: Vec<DynTpProperty> = vals.iter().map(to_dyn).collect();
    let at = dyn_at(&own[i]);
    shows(n, "From<&DynTpProperty>", DynTpPropertyRef::from(&own[i]), v, at)?;
    shows(n, "BBorrow", BBorrow::borrow(&own[i]), v, at)?;
    {
        let d = &own[i];
        shows(n, "BBorrow of a reference", <&DynTpProperty as BBorrow<DynTpPropertyRef>>::borrow(&d), v, at)?;
    }
    let dr: &DynTpProperty = BBorrow::borrow(&own[i]);
    ensure!(std::ptr::eq(dr, &own[i]), "the plain borrow of a DynTpProperty is another value");
    let route = r.below(3);
    {
        let d = &mut own[i];
        match route {
            0 => stores(n, "From<&mut DynTpProperty>", DynTpPropertyMut::from(d), v, at, &new)?,
            1 => stores(n, "BBorrowMut", BBorrowMut::borrow_mut(d), v, at, &new)?,
            _ => {
                let mut d = d;
                let m = <&mut DynTpProperty as BBorrowMut<DynTpPropertyMut>>::borrow_mut(&mut d);
                stores(n, "BBorrowMut of a reference", m, v, at, &new)?
            }
        }
    }
    let got: Vec<Val> = own.iter().map(dyn_val).collect();
    others_same("mutable view of a DynTpProperty", &vals, &got, i, &new)
}

fn states<T: Prop>(r: &mut Rng, n: &mut N) -> Res {
    let (vals, i, new) = cast(T::TY, T::LIST, r);
    let v = &vals[i];
    let mut own: Vec<State<T>> = vals.iter().map(|v| State::new(T::from_val(v))).collect();
    let at = ref_addr(&own[i].value.dyn_ref());
    let s: DynStateRef = T::dyn_state_ref(&own[i]);
    shows(n, "DynStateRef::from(&State)", s.0, v, at)?;
    let inner: DynTpPropertyRef = s.clone().into();
    shows(n, "DynStateRef into DynTpPropertyRef", inner, v, at)?;
    shows(n, "DynStateRef of a view", DynStateRef::from(own[i].value.dyn_ref()).0, v, at)?;
    if r.chance(1, 2) {
        stores(n, "DynStateMut::from(&mut State)", T::dyn_state_mut(&mut own[i]).0, v, at, &new)?;
    } else {
        let m: DynTpPropertyMut = T::dyn_state_mut(&mut own[i]).into();
        stores(n, "DynStateMut into DynTpPropertyMut", m, v, at, &new)?;
    }
    let got: Vec<Val> = own.iter().map(|s| s.value.val()).collect();
    others_same("mutable view of a State", &vals, &got, i, &new)
}

fn chan_ref_at(c: &DynChannelRef<'_>) -> usize {
    macro_rules! m {
        ($e:expr, $en:ident) => {
            match $e {
                $en::U8(x) => *x as *const _ as usize, $en::U16(x) => *x as *const _ as usize, $en::U32(x) => *x as *const _ as usize, $en::U64(x) => *x as *const _ as usize,
                $en::I8(x) => *x as *const _ as usize, $en::I16(x) => *x as *const _ as usize, $en::I32(x) => *x as *const _ as usize, $en::I64(x) => *x as *const _ as usize,
                $en::Bool(x) => *x as *const _ as usize, $en::F32(x) => *x as *const _ as usize, $en::F64(x) => *x as *const _ as usize, $en::String(x) => *x as *const _ as usize,
                $en::ObjectHandle(x) => *x as *const _ as usize, $en::ContractDataHandle(x) => *x as *const _ as usize,
            }
        };
    }
    match c {
        DynChannelRef::Primitive(p) => m!(p, DynChannelPrimitiveRef),
        DynChannelRef::Vec(p) => m!(p, DynChannelVecRef),
    }
}

fn chans<T: Prop>(r: &mut Rng, n: &mut N) -> Res {
    let frames: Vec<Frames> = (0..4).map(|_| gen_frames(T::TY, T::LIST, r)).collect();
    let new = gen_frames(T::TY, T::LIST, r);
    let i = r.below(4);
    let mut own: Vec<Channel<T>> = frames.iter().map(|f| to_chan(f)).collect();
    let want = (T::TY, T::LIST, frames[i].clone());
    let v = T::dyn_chan_ref(&own[i]);
    ensure!(chan_ref_frames(&v) == want, "DynChannelRef shows other keyframes than its owner");
    ensure!(chan_ref_at(&v) == &own[i] as *const _ as usize, "DynChannelRef is a copy, not a view");
    ensure!(tag_is(v.prop_type(), T::TY, T::LIST), "DynChannelRef has type {:?}", v.prop_type());
    n.shared += 1;
    let m = T::dyn_chan_mut(&mut own[i]);
    ensure!(chan_mut_frames(&m) == want, "DynChannelMut shows other keyframes than its owner");
    ensure!(tag_is(m.prop_type(), T::TY, T::LIST), "DynChannelMut has type {:?}", m.prop_type());
    chan_mut_put(m, T::TY, T::LIST, &new);
    n.mutable += 1;
    for (k, c) in own.iter().enumerate() {
        let want = if k == i { &new } else { &frames[k] };
        ensure!(chan_frames(c) == *want, "channel {k} changed wrongly by a store through a view of channel {i}");
    }
    Ok(())
}

/// The dynamic accessors of a baseline show and change what the typed ones do.
fn baseline(r: &mut Rng, n: &mut N) -> Res {
    let mut b = Baseline::new(BaselineKind::Main);
    let c: CAll = b.register_contract().map_err(|e| e.to_string())?;
    let all: Vec<(usize, bool)> = (0..28).map(|k| (k % 14, k >= 14)).collect();
    let mut objs = vec![];
    let mut vals: Vec<Vec<Val>> = vec![];
    let mut frames: Vec<Vec<Frames>> = vec![];
    for _ in 0..3 {
        let v: Vec<Val> = all.iter().map(|(t, l)| gen_val(*t, *l, r)).collect();
        let f: Vec<Frames> = all.iter().map(|(t, l)| gen_frames(*t, *l, r)).collect();
        let dc: Vec<DynChannel> = f.iter().zip(&all).map(|(f, (t, l))| to_dyn_chan(*t, *l, f)).collect();
        let o = b.object_create(&c, v.iter().map(to_dyn).collect::<Vec<_>>().into_iter(), dc.into_iter()).map_err(|e| e.to_string())?;
        objs.push(o);
        vals.push(v);
        frames.push(f);
    }
    for round in 0..40 {
        let (oi, f) = (r.below(3), r.below(28));
        let (ty, list) = all[f];
        let write = round % 2 == 1;
        let mut new = vals[oi][f].clone();
        for c in new.cells.iter_mut() {
            *c = gen_cell(ty, r);
        }
        let newf = gen_frames(ty, list, r);
        let (ov, of) = (vals[oi][f].clone(), frames[oi][f].clone());
        let route = r.below(2);
        dispatch!(ty, list, T => (|| -> Res {
            let h: StateHandle<T> = b.bind_state(StateId::new(f, c.handle()), objs[oi]).map_err(|e| e.to_string())?;
            let d = T::dyn_shandle(h);
            let at = ref_addr(&b[h].value.dyn_ref());
            shows(n, "baseline.state(dynamic handle)", b.state(d).map_err(|e| e.to_string())?.0, &ov, at)?;
            shows(n, "dynamic handle .get", d.get(&b).map_err(|e| e.to_string())?.0, &ov, at)?;
            if write {
                let m = if route == 0 { b.state_mut(d) } else { d.get_mut(&mut b) }.map_err(|e| e.to_string())?;
                stores(n, "mutable dynamic handle", m.0, &ov, at, &new)?;
            }
            let h: ChannelHandle<T> = b.bind_channel(ChannelId::new(f, c.handle()), objs[oi]).map_err(|e| e.to_string())?;
            let d = T::dyn_chandle(h);
            let v = d.get(&b).map_err(|e| e.to_string())?;
            ensure!(chan_ref_frames(&v) == (ty, list, of.clone()), "dynamic channel handle shows other keyframes");
            ensure!(chan_ref_at(&v) == &b[h] as *const _ as usize, "dynamic channel handle shows a copy");
            if write {
                chan_mut_put(d.get_mut(&mut b).map_err(|e| e.to_string())?, ty, list, &newf);
            }
            Ok(())
        })())?;
        if write {
            vals[oi][f] = new;
            frames[oi][f] = newf;
        }
        for o in 0..3 {
            for k in 0..28 {
                let (ty, list) = all[k];
                let (v, fr): (Val, Frames) = dispatch!(ty, list, T => {
                    let h: StateHandle<T> = b.bind_state(StateId::new(k, c.handle()), objs[o]).map_err(|e| e.to_string())?;
                    let g: ChannelHandle<T> = b.bind_channel(ChannelId::new(k, c.handle()), objs[o]).map_err(|e| e.to_string())?;
                    (b[h].value.val(), chan_frames(&b[g]))
                });
                ensure!(v == vals[o][k], "state {k} of object {o} is {v:?}, expected {:?} (a view of state {f} of object {oi} was written)", vals[o][k]);
                ensure!(fr == frames[o][k], "channel {k} of object {o} changed (a view of channel {f} of object {oi} was written)");
            }
        }
    }
    Ok(())
}

/// The blanket borrows of the better_borrow crate.
fn blanket(r: &mut Rng) -> Res {
    let mut s: String = (0..r.below(20)).map(|_| char::from_u32(32 + r.below(400) as u32).unwrap()).collect();
    let copy = s.clone();
    {
        let a: &str = BBorrow::borrow(&s);
        let b: &String = BBorrow::borrow(&s);
        ensure!(a == copy && a.as_ptr() == s.as_ptr() && std::ptr::eq(b, &s), "String borrows");
    }
    {
        let m: &mut String = BBorrowMut::borrow_mut(&mut s);
        m.push('x');
    }
    ensure!(s == format!("{copy}x"), "a store through &mut String is lost");
    let mut v: Vec<u64> = (0..1 + r.below(9)).map(|_| r.next()).collect();
    let c = v.clone();
    {
        let a: &[u64] = BBorrow::borrow(&v);
        ensure!(a == &c[..] && a.as_ptr() == v.as_ptr(), "Vec borrows as a slice");
    }
    let i = r.below(v.len());
    {
        let m: &mut [u64] = BBorrowMut::borrow_mut(&mut v);
        m[i] = 7;
    }
    let mut w = c.clone();
    w[i] = 7;
    ensure!(v == w, "a store through &mut [T]");
    let mut x = Box::new(5i32);
    {
        let a: &i32 = BBorrow::borrow(&x);
        ensure!(*a == 5 && std::ptr::eq(a, &*x), "Box borrows");
        let m: &mut i32 = BBorrowMut::borrow_mut(&mut x);
        *m = 6;
    }
    ensure!(*x == 6, "a store through &mut of a Box");
    Ok(())
}

fn main() {
    let mut rep = Report::new("C09", "Owners (plain values, lists, parts of lists, dynamic values, states, channels, fields in a baseline) of all 28 types with neighbours of the same type. Every route to a shared view is compared with the owner by type, contents and address; one random route to a mutable view is stored through, then the owner and all neighbours are compared with a model. A case is one owner, its contents and the contents stored");
    let n = rep.scale(1_500, 100_000);
    let mut cnt = N { shared: 0, mutable: 0 };
    for case in 0..n {
        if rep.stop() {
            break;
        }
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        let mut r = Rng::new(rep.seed, case);
        // a few owners past the sizes of 8 and 16 bit lengths
        let long = match case % 1400 { _ if cfg!(miri) => 0, 321 => 66_000, 1021 => 300, _ => 0 };
        let some: Vec<usize> = (0..3).map(|_| r.below(28)).collect();
        for k in 0..28usize {
            let (ty, list) = (k % 14, k >= 14);
            let long = if long == 300 || some.contains(&k) || ty == 11 { long } else { 0 };
            types::LONG.with(|l| l.set(long));
            if long > 0 {
                rep.count("long owners", 1);
            }
            let nm = TYPE_NAMES[ty];
            let sig = r.0;
            let c = &mut cnt;
            rep.case(&format!("plain {nm} {list}"), || plain(ty, list, &mut r, c));
            let c = &mut cnt;
            rep.case(&format!("dynamic {nm} {list}"), || dynamic(ty, list, &mut r, c));
            let c = &mut cnt;
            rep.case(&format!("state {nm} {list}"), || dispatch!(ty, list, T => states::<T>(&mut r, c)));
            let c = &mut cnt;
            rep.case(&format!("channel {nm} {list}"), || dispatch!(ty, list, T => chans::<T>(&mut r, c)));
            for j in 0..4 {
                rep.eval((ty, list, j, sig), true);
            }
            rep.sample(|| format!("type {nm}, list {list}: five neighbouring owners of each of the four kinds, one written through a view"));
        }
        types::LONG.with(|l| l.set(0));
        rep.case("blanket borrows", || blanket(&mut r));
        if case % 20 == 0 {
            let sig = r.0;
            let c = &mut cnt;
            rep.case("baseline", || baseline(&mut r, c));
            rep.eval(("baseline", sig), true);
            rep.count("baselines", 1);
        }
    }
    rep.count("shared views compared", cnt.shared);
    rep.count("mutable views stored through", cnt.mutable);
    rep.finish()
}
