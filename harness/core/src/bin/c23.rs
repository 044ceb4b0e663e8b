//! Churn under an allocator that knows every live block: what is held must
//! follow what is alive, and dropping an owner must give everything back.
#[path = "../../../capi/src/mem.rs"]
mod mem;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;
use tp_client::action::property::*;
use tp_client::action::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::*;
use tp_client::engine::{ActionSender, Engine};
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use vcore::dispatch;
use vcore::types::*;
use vcore::world::*;
use vcore::*;

#[global_allocator]
static A: mem::Watch = mem::Watch;

type R<T> = Result<T, String>;
fn es(e: impl std::fmt::Display) -> String {
    e.to_string()
}

/// Values of a bounded size, so that what is alive does not grow by itself.
fn val(t: usize, l: bool, r: &mut Rng) -> Val {
    let mut v = gen_val(t, l, r);
    v.cells.truncate(6);
    for c in &mut v.cells {
        if let Cell::Str(s) = c {
            *s = s.chars().take(20).collect();
        }
    }
    v
}
fn frames(t: usize, l: bool, r: &mut Rng) -> Frames {
    let mut f = gen_frames(t, l, r);
    f.truncate(4);
    for x in &mut f {
        x.0 = val(t, l, r);
    }
    f
}

/// A list of `n` elements, or a text of that length.
fn long_val(t: usize, l: bool, n: usize, r: &mut Rng) -> Val {
    let mut v = val(t, l, r);
    if l {
        let x = val(t, false, r).cells[0].clone();
        v.cells = vec![x; n];
    } else if let Some(Cell::Str(s)) = v.cells.first_mut() {
        *s = "z".repeat(n);
    }
    v
}
fn long_frames(t: usize, l: bool, n: usize, r: &mut Rng) -> Frames {
    let v = val(t, l, r);
    (0..n).map(|i| (v.clone(), (i as f64).to_bits())).collect()
}

/// One object as the workload knows it.
struct Obj {
    h: ObjectHandle,
    s: Vec<(usize, u64)>,
    c: Vec<(usize, u64)>,
}

fn make(k: &Kind, reg: &dyn Reg, b: &mut Baseline, r: &mut Rng) -> R<Obj> {
    let ds: Vec<_> = k.states.iter().map(|(t, l)| to_dyn(&val(*t, *l, r))).collect();
    let dc: Vec<_> = k.chans.iter().map(|(t, l)| to_dyn_chan(*t, *l, &frames(*t, *l, r))).collect();
    let h = reg.create(b, Box::new(ds.into_iter()), Box::new(dc.into_iter()))?;
    bind(k, reg, b, h)
}
fn bind(k: &Kind, reg: &dyn Reg, b: &Baseline, h: ObjectHandle) -> R<Obj> {
    let mut o = Obj { h, s: vec![], c: vec![] };
    for (f, (t, l)) in k.states.iter().enumerate() {
        o.s.push(dispatch!(*t, *l, T => b.bind_state(StateId::<T>::new(f, reg.handle()), h).map(|x| raw(x)).map_err(es))?);
    }
    for (f, (t, l)) in k.chans.iter().enumerate() {
        o.c.push(dispatch!(*t, *l, T => b.bind_channel(ChannelId::<T>::new(f, reg.handle()), h).map(|x| raw(x)).map_err(es))?);
    }
    Ok(o)
}
fn make_bad(k: &Kind, reg: &dyn Reg, b: &mut Baseline, r: &mut Rng) -> R<()> {
    let mut ds: Vec<_> = k.states.iter().map(|(t, l)| to_dyn(&val(*t, *l, r))).collect();
    let mut dc: Vec<_> = k.chans.iter().map(|(t, l)| to_dyn_chan(*t, *l, &frames(*t, *l, r))).collect();
    match r.below(4) {
        0 if !ds.is_empty() => drop(ds.pop()),
        1 if !dc.is_empty() => drop(dc.pop()),
        2 => dc.push(to_dyn_chan(11, false, &frames(11, false, r))),
        _ => ds.push("extra".to_string().dyn_prop()),
    }
    match reg.create(b, Box::new(ds.into_iter()), Box::new(dc.into_iter())) {
        Ok(_) => Err("mismatched fields were accepted".into()),
        Err(_) => Ok(()),
    }
}

/// A workload whose live contents are bounded; `turn` may run forever.
trait Churn {
    fn turn(&mut self, r: &mut Rng) -> R<()>;
}

/// Objects come and go below a fixed number.
struct Objects {
    b: Baseline,
    k: Kind,
    reg: Box<dyn Reg>,
    live: Vec<Obj>,
    cap: usize,
    what: usize,
}
impl Objects {
    fn new(k: Kind, cap: usize, what: usize) -> R<Self> {
        let mut b = Baseline::new(BaselineKind::Main);
        let reg = (k.register)(&mut b)?;
        Ok(Self { b, k, reg, live: Vec::with_capacity(cap + 1), cap, what })
    }
}
impl Churn for Objects {
    fn turn(&mut self, r: &mut Rng) -> R<()> {
        let (k, b) = (&self.k, &mut self.b);
        if self.live.len() < self.cap && (self.live.is_empty() || r.chance(1, 2)) {
            let o = make(k, &*self.reg, b, r)?;
            self.live.push(o);
        } else {
            let i = match self.what % 3 {
                0 => 0,
                1 => self.live.len() - 1,
                _ => r.below(self.live.len()),
            };
            let o = self.live.remove(i);
            (k.remove)(b, o.h)?;
            // what is gone stays gone, at no cost
            if (k.remove)(b, o.h).is_ok() || b.object(o.h).is_ok() {
                return Err("a removed object is there".into());
            }
        }
        if self.what % 2 == 1 {
            make_bad(k, &*self.reg, b, r)?;
        }
        Ok(())
    }
}

/// Registrations come and go with their objects.
struct Contracts {
    b: Baseline,
    kinds: Vec<Kind>,
    live: Vec<(usize, Box<dyn Reg>)>,
    objs: usize,
}
impl Churn for Contracts {
    fn turn(&mut self, r: &mut Rng) -> R<()> {
        let i = r.below(self.kinds.len());
        let k = &self.kinds[i];
        if let Some(p) = self.live.iter().position(|x| x.0 == i) {
            if (k.register)(&mut self.b).is_ok() {
                return Err("a contract was registered twice".into());
            }
            let (_, reg) = self.live.swap_remove(p);
            (k.unregister)(&mut self.b, reg.handle())?;
            if (k.unregister)(&mut self.b, reg.handle()).is_ok() {
                return Err("a contract was unregistered twice".into());
            }
        } else {
            let reg = (k.register)(&mut self.b)?;
            for _ in 0..r.below(self.objs + 1) {
                make(k, &*reg, &mut self.b, r)?;
            }
            self.live.push((i, reg));
        }
        Ok(())
    }
}

/// A few objects whose fields are written, read and bound over and over.
struct Fields {
    b: Baseline,
    k: Kind,
    reg: Box<dyn Reg>,
    objs: Vec<Obj>,
}
impl Churn for Fields {
    fn turn(&mut self, r: &mut Rng) -> R<()> {
        let k = &self.k;
        let o = &self.objs[r.below(self.objs.len())];
        let b = &mut self.b;
        for (f, (t, l)) in k.states.iter().enumerate() {
            if k.states.len() > 8 && !r.chance(1, 6) {
                continue;
            }
            let path = *r.pick(&[0, 1, 2, 5]);
            let v = val(*t, *l, r);
            dispatch!(*t, *l, T => write_state::<T>(b, o.s[f], &v, path))?;
            let p = r.below(6);
            if dispatch!(*t, *l, T => read_state::<T>(b, o.s[f], p))? != v {
                return Err("a state reads another value than was written".into());
            }
        }
        for (f, (t, l)) in k.chans.iter().enumerate() {
            if k.chans.len() > 8 && !r.chance(1, 6) {
                continue;
            }
            let path = r.below(6);
            let v = frames(*t, *l, r);
            dispatch!(*t, *l, T => write_chan::<T>(b, o.c[f], &v, path))?;
            let p = r.below(5);
            dispatch!(*t, *l, T => read_chan::<T>(b, o.c[f], p))?;
        }
        bind(k, &*self.reg, b, o.h)?;
        if b.iter_objects().count() != self.objs.len() || b.contract_data(self.reg.handle()).map_err(es)?.objects().len() != self.objs.len() {
            return Err("another number of objects".into());
        }
        let _ = b.object_mut(o.h).map_err(es)?;
        Ok(())
    }
}

contract!(CBat, SBat { n: u64, text: String, list: Vec<String> }, ChBat {}, "verif.bat", (0, 0, 1));

/// Batches through an engine, accepted, rejected and dropped.
struct Batches {
    e: Engine,
    tx: ActionSender,
    n: StateHandle<u64>,
    text: StateHandle<String>,
    list: StateHandle<Vec<String>>,
    cap: Option<usize>,
}
fn act(handle: tp_client::contract::properties::states::dyn_handle::DynStateHandle, data: tp_client::contract::properties::dynamic::DynTpProperty, write: bool) -> Action {
    Action::Property(PropertyAction::State(if write { StateAction::Write { handle, data } } else { StateAction::Assert { handle, data } }))
}
impl Batches {
    fn new(cap: Option<usize>) -> R<Self> {
        let (mut e, tx) = Engine::new(Realm::new(RealmID::new("verif".into())), cap);
        let b = e.realm_mut().baseline_mut(BaselineKind::Fork);
        let c: CBat = b.register_contract().map_err(es)?;
        let v = vec![0u64.dyn_prop(), String::new().dyn_prop(), Vec::<String>::new().dyn_prop()];
        let o = b.object_create(&c, v.into_iter(), std::iter::empty()).map_err(es)?;
        let n = b.bind_state(c.states().n(), o).map_err(es)?;
        let text = b.bind_state(c.states().text(), o).map_err(es)?;
        let list = b.bind_state(c.states().list(), o).map_err(es)?;
        Ok(Self { e, tx, n, text, list, cap })
    }
    fn batch(&self, bad: bool, r: &mut Rng) -> Collaction {
        let mut a = vec![];
        for _ in 0..r.below(4) {
            a.push(match r.below(3) {
                0 => act(u64::dyn_shandle(self.n), r.next().dyn_prop(), true),
                1 => act(String::dyn_shandle(self.text), "x".repeat(r.below(30)).dyn_prop(), true),
                _ => act(<Vec<String>>::dyn_shandle(self.list), vec!["some text".to_string(); r.below(5)].dyn_prop(), true),
            });
        }
        if bad {
            a.push(act(String::dyn_shandle(self.text), "never there".to_string().dyn_prop(), r.chance(1, 3)));
            // a write of the wrong type, or an assertion that fails
            if r.chance(1, 2) {
                a.push(act(u64::dyn_shandle(self.n), "no number".to_string().dyn_prop(), true));
            } else {
                a.push(act(String::dyn_shandle(self.text), "nor this".to_string().dyn_prop(), false));
            }
        }
        Collaction::verif_new(a)
    }
}
impl Churn for Batches {
    fn turn(&mut self, r: &mut Rng) -> R<()> {
        let room = self.cap.unwrap_or(40).min(40);
        let mut sent = vec![];
        for _ in 0..r.below(room + 1) {
            let bad = r.chance(1, 3);
            let c = self.batch(bad, r);
            if r.chance(1, 8) {
                let tx = self.tx.clone();
                tx.try_send(c).map_err(|_| "a queue with room refused a batch")?;
            } else {
                self.tx.try_send(c).map_err(|_| "a queue with room refused a batch")?;
            }
            sent.push(bad);
        }
        if sent.len() == self.cap.unwrap_or(usize::MAX) {
            let c = self.batch(false, r);
            if self.tx.try_send(c).is_ok() {
                return Err("a full queue took a batch".into());
            }
        }
        for bad in sent {
            let x = if r.chance(1, 2) { self.e.try_apply().map_err(|e| format!("{e:?}"))? } else { self.e.apply_timeout(Duration::from_secs(60)).map_err(|e| format!("{e:?}"))? };
            if x.is_err() != bad {
                return Err("a batch met another fate".into());
            }
        }
        if self.e.try_apply().is_ok() {
            return Err("a batch nobody sent".into());
        }
        if r.chance(1, 20) && self.e.apply_timeout(Duration::from_micros(20)).is_ok() {
            return Err("a batch nobody sent".into());
        }
        self.e.tick(tp_client::time::Ticks::new(1));
        Ok(())
    }
}

/// The arena alone.
struct Slots {
    a: arena::Arena<String>,
    live: Vec<arena::Index<String>>,
    cap: usize,
}
impl Churn for Slots {
    fn turn(&mut self, r: &mut Rng) -> R<()> {
        for _ in 0..4 {
            if self.live.len() < self.cap && r.chance(1, 2) {
                self.live.push(self.a.insert("x".repeat(r.below(40))));
            } else if !self.live.is_empty() {
                let h = self.live.swap_remove(r.below(self.live.len()));
                self.a.remove(h).ok_or("a live handle")?;
            }
        }
        match r.below(12) {
            0 => {
                let c = self.a.clone();
                self.a = c;
            }
            1 => {
                if self.a.clone().into_iter().count() != self.live.len() {
                    return Err("an owning traversal of another length".into());
                }
            }
            2 => {
                let mut it = self.a.clone().into_iter();
                it.next();
                it.next_back();
            }
            4 => {
                for (_, s) in self.a.iter_mut() {
                    *s = "y".repeat(r.below(40));
                }
            }
            _ => {}
        }
        Ok(())
    }
}

/// Values and conversions that keep nothing.
struct Values;
impl Churn for Values {
    fn turn(&mut self, r: &mut Rng) -> R<()> {
        let (t, l) = (r.below(14), r.chance(1, 2));
        let v = val(t, l, r);
        let f = frames(t, l, r);
        dispatch!(t, l, T => {
            let d = to_dyn(&v);
            let back = T::from_dyn_prop(d)?;
            let _ = ref_val(&back.dyn_ref());
            let s = State::new(back);
            let _ = T::dyn_state_ref(&s);
            let d = T::dyn_state(s);
            drop(d);
            let c: Channel<T> = to_chan(&f);
            let d = T::dyn_chan(c);
            let c = T::from_dyn_chan(d)?;
            drop(c);
            // and the conversion that is refused
            let w = if t == 0 { 1 } else { 0 };
            dispatch!(w, l, U => if U::from_dyn_prop(to_dyn(&v)).is_ok() { return Err("another type was accepted".into()) });
        });
        Ok(())
    }
}

fn kind_of(i: usize) -> Kind {
    kinds().swap_remove(i)
}

fn churns(r: &mut Rng, case: u64) -> R<(String, Box<dyn Churn>, usize)> {
    Ok(match case % 20 {
        n @ 0..=7 => {
            let cap = *r.pick(&[1, 1, 2, 8, 20]);
            let what = r.below(6);
            let k = kind_of(n as usize);
            let name = format!("objects of {} come and go, at most {cap}, order {what}", k.name);
            let turns = if n == 0 { 1500 } else { 8000 };
            (name, Box::new(Objects::new(k, cap, what)?), turns)
        }
        n @ 8..=10 => {
            let objs = [0, 2, 6][n as usize - 8];
            let kinds: Vec<Kind> = kinds().into_iter().skip(if n == 8 { 0 } else { 1 }).collect();
            (format!("contracts come and go with up to {objs} objects"), Box::new(Contracts { b: Baseline::new(BaselineKind::Fork), kinds, live: Vec::with_capacity(16), objs }), 6000)
        }
        n @ 11..=14 => {
            let k = kind_of([0, 1, 4, 7][n as usize - 11]);
            let mut b = Baseline::new(BaselineKind::Main);
            let reg = (k.register)(&mut b)?;
            let mut objs = vec![];
            for _ in 0..3 {
                objs.push(make(&k, &*reg, &mut b, r)?);
            }
            (format!("fields of {} are written, read and bound", k.name), Box::new(Fields { b, k, reg, objs }), if n == 11 { 1500 } else { 6000 })
        }
        n @ 15..=17 => {
            let cap = [None, Some(1), Some(7)][n as usize - 15];
            (format!("batches through a queue of capacity {cap:?}"), Box::new(Batches::new(cap)?), 4000)
        }
        18 => (format!("an arena's slots are reused"), Box::new(Slots { a: Default::default(), live: Vec::with_capacity(64), cap: 40 }), 10_000),
        _ => (format!("values are converted and dropped"), Box::new(Values), 10_000),
    })
}

/// Runs a churn; what is held may not grow with the number of turns.
fn bounded(r: &mut Rng, case: u64, factor: usize) -> R<(String, u64, usize, usize)> {
    let before = mem::live();
    let (name, mut c, turns) = churns(r, case)?;
    let turns = turns * 3 * factor;
    // the most that a stretch of turns held at its looks
    let mut high = vec![];
    for part in 0..8 {
        let mut h = 0;
        for _ in 0..turns / 8 {
            c.turn(r).map_err(|e| format!("{name}: {e}"))?;
            h = h.max(mem::live().bytes);
        }
        high.push(h - before.bytes.min(h));
        let _ = part;
    }
    let (early, late) = (high[1].max(high[0]), high[7].max(high[6]));
    // room for tables that double once more
    if late > early * 3 / 2 + 12 * 1024 {
        return Err(format!("{name}: after {} turns {early} bytes were held at most, after {turns} turns {late}", turns / 4));
    }
    drop(c);
    let after = mem::live();
    let (kept, blocks) = (after.bytes as i64 - before.bytes as i64, after.blocks as i64 - before.blocks as i64);
    // the panic hook or a thread's first use may keep a little, once
    if kept > 2048 + name.len() as i64 {
        return Err(format!("{name}: {kept} bytes in {blocks} blocks are still held after everything was dropped"));
    }
    Ok((name, turns as u64, early, late))
}

/// Owners that are built, filled and dropped again and again: nothing may stay.
fn released(r: &mut Rng, case: u64) -> R<(String, u64)> {
    let what = case % 9;
    let name = ["a baseline with objects", "a realm", "an engine with pending batches", "senders without their engine", "channels", "dynamic values and channels", "an arena", "objects with long values", "a refused batch"][what as usize];
    let seed = r.next();
    let mut round = |r: &mut Rng| -> R<()> {
        match what {
            0 | 1 => {
                let mut realm = Realm::new(RealmID::new("verif".into()));
                for w in [BaselineKind::Main, BaselineKind::Fork] {
                    let b = realm.baseline_mut(w);
                    for k in kinds().iter().skip(r.below(3)) {
                        let reg = (k.register)(b)?;
                        let mut last = None;
                        for _ in 0..r.below(4) {
                            last = Some(make(k, &*reg, b, r)?);
                        }
                        if let (Some(o), true) = (last, r.chance(1, 2)) {
                            (k.remove)(b, o.h)?;
                        }
                        if r.chance(1, 6) {
                            (k.unregister)(b, reg.handle())?;
                        }
                    }
                }
            }
            2 => {
                let x = Batches::new(*r.pick(&[None, Some(64)]))?;
                for _ in 0..r.below(64) {
                    let c = x.batch(r.chance(1, 2), r);
                    x.tx.try_send(c).map_err(|_| "a queue with room refused a batch")?;
                }
                let Batches { e, tx, .. } = x;
                if r.chance(1, 2) {
                    drop(e);
                    drop(tx);
                } else {
                    drop(tx);
                    drop(e);
                }
            }
            3 => {
                let x = Batches::new(*r.pick(&[None, Some(3)]))?;
                for _ in 0..r.below(4) {
                    let c = x.batch(false, r);
                    let _ = x.tx.try_send(c);
                }
                let c = x.batch(true, r);
                let Batches { e, tx, .. } = x;
                let tx2 = tx.clone();
                drop(e);
                drop(tx);
                match tx2.try_send(c) {
                    Ok(()) => return Err("a sender without an engine took a batch".into()),
                    Err(e) => drop(e.into_inner()),
                }
            }
            4 | 5 => {
                let (t, l) = (r.below(14), r.chance(1, 2));
                let f = frames(t, l, r);
                dispatch!(t, l, T => {
                    let c: Channel<T> = to_chan(&f);
                    let d: Channel<T> = to_chan(&f);
                    drop(c);
                    if what == 5 { drop(T::dyn_chan(d)); drop(to_dyn(&val(t, l, r))); } else { drop(d) }
                });
            }
            6 => {
                let mut a: arena::Arena<Vec<String>> = (0..r.below(50)).map(|n| vec!["x".repeat(n); 2]).collect();
                let hs: Vec<_> = a.iter().map(|x| x.0).collect();
                for h in hs.iter().step_by(2) {
                    drop(a.remove(*h));
                }
                match r.below(4) {
                    0 => drop(a),
                    1 => drop(a.into_iter()),
                    2 => drop(a.into_iter().rev().take(3).collect::<Vec<_>>()),
                    _ => drop(a.clone()),
                }
            }
            7 => {
                let mut b = Baseline::new(BaselineKind::Main);
                let ks = kinds();
                let k = &ks[1 + r.below(ks.len() - 1)];
                let reg = (k.register)(&mut b)?;
                for n in [r.below(1200), 300, 1] {
                    let ds: Vec<_> = k.states.iter().map(|(t, l)| to_dyn(&long_val(*t, *l, n, r))).collect();
                    let dc: Vec<_> = k.chans.iter().map(|(t, l)| to_dyn_chan(*t, *l, &long_frames(*t, *l, n, r))).collect();
                    let h = reg.create(&mut b, Box::new(ds.into_iter()), Box::new(dc.into_iter()))?;
                    let o = bind(k, &*reg, &b, h)?;
                    for (f, (t, l)) in k.states.iter().enumerate() {
                        let v = long_val(*t, *l, n / 2, r);
                        dispatch!(*t, *l, T => write_state::<T>(&mut b, o.s[f], &v, 0))?;
                    }
                    for (f, (t, l)) in k.chans.iter().enumerate() {
                        let v = long_frames(*t, *l, n / 2, r);
                        dispatch!(*t, *l, T => write_chan::<T>(&mut b, o.c[f], &v, 0))?;
                    }
                    match r.below(3) {
                        0 => (),
                        _ => (k.remove)(&mut b, h)?,
                    }
                }
                if r.chance(1, 2) {
                    (k.unregister)(&mut b, reg.handle())?;
                }
            }
            _ => {
                let mut x = Batches::new(None)?;
                let c = x.batch(true, r);
                x.tx.try_send(c).map_err(|_| "an unbounded queue refused a batch")?;
                match x.e.try_apply() {
                    Ok(Err(c)) => drop(c),
                    _ => return Err("a batch met another fate".into()),
                }
            }
        }
        Ok(())
    };
    let mut at = vec![];
    // the same rounds each time, so that what they leave is the same, too
    for _ in 0..4 {
        let mut q = Rng::new(seed, case);
        for _ in 0..30 {
            round(&mut q).map_err(|e| format!("{name}: {e}"))?;
        }
        at.push(mem::live());
    }
    let d = (at[3].bytes as i64 - at[1].bytes as i64, at[3].blocks as i64 - at[1].blocks as i64);
    // (growing the list of looks itself is not counted against it)
    if d.0 > 256 || d.1 > 2 {
        return Err(format!("{name}: every 30 that were dropped left {} bytes in {} blocks", d.0 / 2, d.1 as f64 / 2.0));
    }
    Ok((name.to_string(), 120))
}

fn main() {
    let mut rep = Report::new("C23", "Churn with bounded live contents: objects of 8 contracts created and removed in several orders, contracts registered and unregistered with their objects, fields written and read by every path, refused operations, batches through engines of several capacities, slots of an arena. What the allocator holds is read after every turn; its peak late in the run may not exceed one and a half times the early peak and a table's worth. Owners built, filled and dropped again and again must leave nothing. A case is one churn with its parameters, or one kind of owner");
    let total = rep.scale(120, 2400);
    for case in 0..total {
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        if rep.stop() {
            break;
        }
        let mut r = Rng::new(rep.seed, 23_000 + case);
        let bad0 = (mem::BAD_FREES.load(SeqCst), mem::BAD_LAYOUTS.load(SeqCst));
        let factor = if case % 60 < 20 || !rep.thorough { 1 } else { 4 };
        let out = guarded(|| {
            if case % 3 == 2 {
                released(&mut r, case / 3).map(|(n, turns)| (n, turns, 0, 0))
            } else {
                bounded(&mut r, case - case / 3, factor)
            }
        });
        let bad = (mem::BAD_FREES.load(SeqCst) - bad0.0, mem::BAD_LAYOUTS.load(SeqCst) - bad0.1);
        if bad != (0, 0) {
            rep.violation("memory was released twice or wrongly", format!("case {case}: {} releases of what is not live, {} with another size", bad.0, bad.1), vec![]);
        }
        match out {
            Ok(Ok((name, turns, early, late))) => {
                rep.count(if case % 3 == 2 { "owners dropped" } else { "turns" }, turns);
                rep.count("churns", (case % 3 != 2) as u64);
                rep.sample(|| format!("{name}: {turns} turns, at most {early} bytes early, {late} late"));
                rep.eval((name, early, case / 20), true);
            }
            Ok(Err(e)) => {
                let key: String = e.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
                rep.violation(key, format!("case {case}: {e}"), vec![]);
            }
            Err(p) => rep.violation("panic", format!("case {case}: unexpected panic: {p}"), vec![]),
        }
    }
    rep.count("allocations watched", mem::ALLOCS.load(SeqCst));
    rep.finish()
}
