//! Checks generated contract declarations (see checks/gen_contracts.py) against
//! the generator's own table of their fields.
use std::any::TypeId;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::*;
use vcore::types::*;
use vcore::*;

type Res = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

/// What a field id amounts to: type and which field of which contract.
type Id = (usize, bool, String);
fn sid<T: Prop>(x: StateId<T>) -> Id {
    (T::TY, T::LIST, format!("{:?} {:?}", x, raw(x.contract())))
}
fn cid<T: Prop>(x: ChannelId<T>) -> Id {
    (T::TY, T::LIST, format!("{:?} {:?}", x, raw(x.contract())))
}
fn dsid(x: DynStateId) -> Id {
    apply_to_state_id!(x, sid)
}
fn dcid(x: DynChannelId) -> Id {
    apply_to_channel_id!(x, cid)
}

pub struct Field {
    name: &'static str,
    ty: usize,
    list: bool,
    type_id: TypeId,
}
fn field<T: Prop>(name: &'static str) -> Field {
    Field { name, ty: T::TY, list: T::LIST, type_id: TypeId::of::<T>() }
}
pub struct Decl<C: Contract> {
    s: Vec<Field>,
    c: Vec<Field>,
    /// through the accessors
    acc_s: fn(&C) -> Vec<Id>,
    acc_c: fn(&C) -> Vec<Id>,
    /// values of the fields of an object, bound through the accessors
    read: fn(&C, &Baseline, tp_client::object::ObjectHandle) -> Result<(Vec<Val>, Vec<Frames>), String>,
    name: &'static str,
    version: (u16, u16, u16),
}

fn rd_s<T: Prop>(b: &Baseline, id: StateId<T>, o: tp_client::object::ObjectHandle) -> Result<Val, String> {
    Ok(b[b.bind_state(id, o).map_err(|e| e.to_string())?].value.val())
}
fn rd_c<T: Prop>(b: &Baseline, id: ChannelId<T>, o: tp_client::object::ObjectHandle) -> Result<Frames, String> {
    Ok(chan_frames(&b[b.bind_channel(id, o).map_err(|e| e.to_string())?]))
}

const BIG: [usize; 6] = [usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 40, 1000, 64];

/// Uses an iterator over the fields in a random way, next to the plain list.
fn drive<I: Iterator, F: Fn(I::Item) -> Id>(mut it: I, want: &[Id], r: &mut Rng, see: F, log: &mut String) -> Res {
    let mut pos = 0usize;
    let n = want.len();
    let cmp = |what: String, got: Option<Id>, exp: Option<&Id>| -> Res {
        ensure!(got.as_ref() == exp, "{what} gave {got:?}, expected {exp:?}");
        Ok(())
    };
    let steps = r.below(8);
    for _ in 0..steps {
        let arg = match r.below(5) {
            0 => *r.pick(&BIG),
            1 => r.below(n + 2),
            _ => r.below(4),
        };
        let sh = it.size_hint();
        log.push_str(&format!("size_hint()={sh:?} "));
        ensure!(sh == (n - pos, Some(n - pos)), "size_hint() is {sh:?} with {} fields left", n - pos);
        match r.below(5) {
            0 | 1 => {
                log.push_str("next ");
                let e = want.get(pos);
                pos = (pos + 1).min(n);
                cmp("next()".into(), it.next().map(&see), e)?;
            }
            2 | 3 => {
                log.push_str(&format!("nth({arg}) "));
                let k = pos.saturating_add(arg);
                let e = want.get(k);
                pos = k.saturating_add(1).min(n);
                cmp(format!("nth({arg})"), it.nth(arg).map(&see), e)?;
            }
            _ => {
                // some of it through an adapter that borrows the iterator
                match r.below(4) {
                    0 => {
                        let k = arg.min(n + 3);
                        log.push_str(&format!("by_ref.take({k}) "));
                        let got: Vec<Id> = it.by_ref().take(k).map(&see).collect();
                        let exp = &want[pos..(pos + k).min(n)];
                        pos = (pos + k).min(n);
                        ensure!(got == exp, "take({k}) gave {got:?}, expected {exp:?}");
                    }
                    1 => {
                        log.push_str(&format!("by_ref.skip({arg}).next "));
                        let k = pos.saturating_add(arg);
                        let e = want.get(k);
                        pos = k.saturating_add(1).min(n);
                        cmp(format!("skip({arg}).next()"), it.by_ref().skip(arg).next().map(&see), e)?;
                    }
                    2 => {
                        let d = 1 + arg.min(n + 3);
                        log.push_str(&format!("by_ref.step_by({d}).take(2) "));
                        let got: Vec<Id> = it.by_ref().step_by(d).take(2).map(&see).collect();
                        let mut exp = vec![];
                        if pos < n {
                            exp.push(want[pos].clone());
                            pos += 1;
                            if pos + d - 1 < n {
                                exp.push(want[pos + d - 1].clone());
                                pos += d;
                            } else {
                                pos = n;
                            }
                        }
                        ensure!(got == exp, "step_by({d}).take(2) gave {got:?}, expected {exp:?}");
                    }
                    _ => {
                        log.push_str("by_ref.find ");
                        let t = r.below(28);
                        let got = it.by_ref().map(&see).find(|x| (x.0, x.1) == (t % 14, t >= 14));
                        let at = want[pos..].iter().position(|x| (x.0, x.1) == (t % 14, t >= 14));
                        let e = at.map(|a| &want[pos + a]);
                        pos = at.map_or(n, |a| pos + a + 1);
                        cmp("find".into(), got, e)?;
                    }
                }
            }
        }
    }
    let rest = &want[pos..];
    let sh = it.size_hint();
    ensure!(sh == (rest.len(), Some(rest.len())), "size_hint() is {sh:?} with {} fields left", rest.len());
    match r.below(9) {
        0 => {
            log.push_str("count");
            let got = it.count();
            ensure!(got == rest.len(), "count() is {got} with {} fields left", rest.len());
        }
        1 => {
            log.push_str("last");
            cmp("last()".into(), it.last().map(&see), rest.last())?;
        }
        2 => {
            let d = if r.chance(1, 3) { *r.pick(&BIG) } else { 1 + r.below(5) };
            log.push_str(&format!("step_by({d})"));
            let got: Vec<Id> = it.step_by(d).map(&see).collect();
            let exp: Vec<Id> = rest.iter().step_by(d).cloned().collect();
            ensure!(got == exp, "step_by({d}) gave {got:?}, expected {exp:?}");
        }
        3 => {
            let k = if r.chance(1, 3) { *r.pick(&BIG) } else { r.below(n + 2) };
            log.push_str(&format!("skip({k})"));
            let s = it.skip(k);
            let sh = s.size_hint();
            let got: Vec<Id> = s.map(&see).collect();
            let exp: Vec<Id> = rest.iter().skip(k).cloned().collect();
            ensure!(sh.0 <= exp.len() && sh.1.map_or(true, |u| u >= exp.len()), "size_hint() of skip({k}) is {sh:?}, {} follow", exp.len());
            ensure!(got == exp, "skip({k}) gave {got:?}, expected {exp:?}");
        }
        4 => {
            log.push_str("zip");
            let got: Vec<(Id, usize)> = it.map(&see).zip(0..).collect();
            ensure!(got.len() == rest.len() && got.iter().zip(rest).all(|(g, w)| g.0 == *w), "zip gave {got:?}");
        }
        5 => {
            log.push_str("fold");
            let got = it.fold(vec![], |mut v, x| {
                v.push(see(x));
                v
            });
            ensure!(got == rest, "fold visited {got:?}, expected {rest:?}");
        }
        6 => {
            log.push_str("chain");
            let got: Vec<Id> = it.map(&see).chain(rest.iter().cloned()).collect();
            ensure!(got.len() == 2 * rest.len(), "chain gave {} fields", got.len());
        }
        7 => {
            log.push_str("past the end");
            let got: Vec<Id> = it.by_ref().map(&see).collect();
            ensure!(got == rest, "collect gave {got:?}, expected {rest:?}");
            for a in [0, 1, usize::MAX] {
                ensure!(it.next().is_none() && it.nth(a).is_none(), "a field after the last one");
                let sh = it.size_hint();
                ensure!(sh == (0, Some(0)), "size_hint() is {sh:?} at the end");
            }
        }
        _ => {
            log.push_str("collect");
            let got: Vec<Id> = it.map(&see).collect();
            ensure!(got == rest, "collect gave {got:?}, expected {rest:?}");
        }
    }
    Ok(())
}

pub fn run<C: Contract>(rep: &mut Report, d: Decl<C>) {
    let cname = d.name;
    let mut r = Rng::new(rep.seed, rep.evaluations + 77);
    let rounds = rep.scale(120, 4000);
    let mut log = String::new();
    let mut reached: Vec<u64> = vec![];
    let out = guarded(|| -> Res {
        let r = &mut r;
        let id = C::ID;
        ensure!(id.name == d.name && id.version == d.version, "the contract's id is {id:?}");
        // a handle that is not simply the first one
        let mut b = Baseline::new(BaselineKind::Main);
        let c: C = b.register_contract().map_err(|e| e.to_string())?;
        for forged in 0..3 {
            let (c2, h);
            let c: &C = if forged == 0 {
                h = c.handle();
                &c
            } else {
                h = chandle(r.below(100), r.next());
                c2 = C::new(h);
                &c2
            };
            ensure!(c.handle() == h, "handle() is {:?}, given {h:?}", c.handle());
            let at = format!("{:?}", raw(h));
            for (what, fields, names, tids, types, acc, n_iter) in [
                ("states", &d.s, <C::States as IStates>::field_names(), <C::States as IStates>::type_ids(), <C::States as IStates>::enumerate_types(), (d.acc_s)(c), c.state_iter().map(dsid).collect::<Vec<_>>()),
                ("channels", &d.c, <C::Channels as IChannels>::field_names(), <C::Channels as IChannels>::type_ids(), <C::Channels as IChannels>::enumerate_types(), (d.acc_c)(c), c.chan_iter().map(dcid).collect::<Vec<_>>()),
            ] {
                let n = fields.len();
                ensure!(names.iter().copied().eq(fields.iter().map(|f| f.name)), "{what}: field_names() is {names:?}");
                ensure!(tids.iter().copied().eq(fields.iter().map(|f| f.type_id)), "{what}: type_ids() does not match the declaration");
                ensure!(types.len() == n, "{what}: enumerate_types() has {} of {n} fields", types.len());
                for (i, f) in fields.iter().enumerate() {
                    ensure!(tag_is(types[i], f.ty, f.list), "{what}: enumerate_types()[{i}] is {:?}", types[i]);
                    // the expected id: the field's type, its index and the contract's handle
                    let want: Id = if what == "states" {
                        dispatch!(f.ty, f.list, T => sid(StateId::<T>::new(i, h)))
                    } else {
                        dispatch!(f.ty, f.list, T => cid(ChannelId::<T>::new(i, h)))
                    };
                    ensure!(want.2.ends_with(&at), "{what}: an id names contract {}, created with {at}", want.2);
                    ensure!(acc[i] == want, "{what}: accessor {} gives {:?}, expected {want:?}", f.name, acc[i]);
                    let look = if what == "states" { c.state_id(i).map(dsid) } else { c.chan_id(i).map(dcid) };
                    ensure!(look.as_ref() == Some(&want), "{what}: lookup of index {i} gives {look:?}, expected {want:?}");
                    ensure!(n_iter.get(i) == Some(&want), "{what}: the iterator gives {:?} at {i}, expected {want:?}", n_iter.get(i));
                }
                ensure!(acc.len() == n && n_iter.len() == n, "{what}: {} fields iterated, {n} declared", n_iter.len());
                for k in [n, n + 1, usize::MAX, usize::MAX - 1, 1 << 33] {
                    let some = if what == "states" { c.state_id(k).is_some() } else { c.chan_id(k).is_some() };
                    ensure!(!some, "{what}: lookup of index {k} of {n} fields gives a field");
                }
                for _ in 0..rounds {
                    log.clear();
                    log.push_str(what);
                    log.push_str(": ");
                    if what == "states" {
                        drive(c.state_iter(), &acc, r, dsid, &mut log)?;
                    } else {
                        drive(c.chan_iter(), &acc, r, dcid, &mut log)?;
                    }
                    reached.push(vcore::report::h64((cname, &log)));
                }
            }
        }
        // an object's fields arrive under the accessors of the same position
        log = "object of the contract".into();
        let v: Vec<Val> = d.s.iter().map(|f| gen_val(f.ty, f.list, r)).collect();
        let fr: Vec<Frames> = d.c.iter().map(|f| gen_frames(f.ty, f.list, r)).collect();
        let dc: Vec<DynChannel> = fr.iter().zip(&d.c).map(|(x, f)| to_dyn_chan(f.ty, f.list, x)).collect();
        let o = b
            .object_create(&c, v.iter().map(to_dyn).collect::<Vec<_>>().into_iter(), dc.into_iter())
            .map_err(|e| format!("an object with the declared fields is refused: {e}"))?;
        let (gv, gf) = (d.read)(&c, &b, o)?;
        ensure!(gv == v, "states read through the accessors are {gv:?}, created with {v:?}");
        ensure!(gf == fr, "channels read through the accessors differ from those created");
        Ok(())
    });
    let err = match out {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(p) => Some(format!("unexpected panic: {p}")),
    };
    if let Some(e) = err {
        let key: String = e.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
        let detail = vec![format!("contract {cname}"), format!("states: {:?}", d.s.iter().map(|f| (f.name, TYPE_NAMES[f.ty], f.list)).collect::<Vec<_>>()), format!("channels: {:?}", d.c.iter().map(|f| (f.name, TYPE_NAMES[f.ty], f.list)).collect::<Vec<_>>()), format!("iterator use: {log}")];
        rep.violation(key, format!("{cname}: {e} [{log}]"), detail);
    }
    for s in reached {
        rep.eval(s, true);
    }
    rep.count("contracts", 1);
    rep.count("fields declared", (d.s.len() + d.c.len()) as u64);
    for f in d.s.iter().chain(&d.c) {
        rep.count(&format!("fields of type {}{}", if f.list { "Vec " } else { "" }, TYPE_NAMES[f.ty]), 1);
    }
    rep.sample(|| format!("{cname}: {} states, {} channels; last use {log}", d.s.len(), d.c.len()));
}

include!(env!("VERIF_GEN_CONTRACTS"));

fn main() {
    let mut rep = Report::new("C10", "Generated contract declarations with 0 to 45 fields of all 28 types, compiled with the real macros, against the generator's table: names, type ids, tags, accessors, indexed lookup, dynamic ids, the fields of a created object; and random uses of the field iterators with arguments up to usize::MAX next to the plain list. A case is one sequence of iterator operations with their results on one contract");
    all(&mut rep);
    rep.finish()
}
