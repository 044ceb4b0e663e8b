//! Random histories over the two baselines of a realm, next to a reference
//! model, with a full audit of what can be observed after the operations.
use crate::dispatch;
use crate::report::{guarded, h64};
use crate::rng::Rng;
use crate::types::*;
use arena::generational_arena::Index as GaIndex;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::dyn_state::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::*;
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::{Ticks, TimeScale};

pub type BoxIter<T> = Box<dyn Iterator<Item = T>>;

/// A registered contract value, whatever its type.
pub trait Reg {
    fn handle(&self) -> ContractDataHandle;
    fn create(
        &self,
        b: &mut Baseline,
        s: BoxIter<DynTpProperty>,
        c: BoxIter<DynChannel>,
    ) -> Result<ObjectHandle, String>;
}

pub struct Kind {
    pub name: &'static str,
    pub id: ContractId,
    pub states: Vec<(usize, bool)>,
    pub chans: Vec<(usize, bool)>,
    pub register: fn(&mut Baseline) -> Result<Box<dyn Reg>, String>,
    pub unregister: fn(&mut Baseline, ContractDataHandle) -> Result<(), String>,
    pub remove: fn(&mut Baseline, ObjectHandle) -> Result<(), String>,
    /// A contract value that was never registered, with any handle
    pub forge: fn(ContractDataHandle) -> Box<dyn Reg>,
}

pub struct R<C: Contract>(pub C);
impl<C: Contract> Reg for R<C> {
    fn handle(&self) -> ContractDataHandle {
        self.0.handle()
    }
    fn create(
        &self,
        b: &mut Baseline,
        s: BoxIter<DynTpProperty>,
        c: BoxIter<DynChannel>,
    ) -> Result<ObjectHandle, String> {
        b.object_create(&self.0, s, c).map_err(|e| format!("{e}"))
    }
}

/// Declares a contract the way a user does.
#[macro_export]
macro_rules! contract {
    ($C:ident, $S:ident { $($sf:ident : $st:ty),* }, $Ch:ident { $($cf:ident : $ct:ty),* }, $name:expr, $ver:expr) => {
        #[states]
        #[allow(dead_code)]
        pub struct $S { $($sf: $st),* }
        #[channels]
        #[allow(dead_code)]
        pub struct $Ch { $($cf: $ct),* }
        #[allow(dead_code)]
        pub struct $C { pub h: ContractDataHandle, pub s: $S, pub c: $Ch }
        impl Contract for $C {
            type States = $S;
            type Channels = $Ch;
            const ID: ContractId = ContractId { name: $name, version: $ver };
            fn new(handle: ContractDataHandle) -> Self {
                Self { h: handle, s: $S::new(handle), c: $Ch::new(handle) }
            }
            fn states(&self) -> &$S { &self.s }
            fn channels(&self) -> &$Ch { &self.c }
            fn handle(&self) -> ContractDataHandle { self.h }
        }
        impl $C {
            #[allow(dead_code)]
            pub fn kind() -> Kind {
                Kind {
                    name: stringify!($C),
                    id: <$C as Contract>::ID,
                    states: vec![$((<$st as Prop>::TY, <$st as Prop>::LIST)),*],
                    chans: vec![$((<$ct as Prop>::TY, <$ct as Prop>::LIST)),*],
                    register: |b| b.register_contract::<$C>().map(|c| Box::new(R(c)) as Box<dyn Reg>).map_err(|e| format!("{e}")),
                    unregister: |b, h| b.unregister_contract::<$C>(h).map_err(|e| format!("{e}")),
                    remove: |b, o| b.object_remove::<$C>(o).map_err(|e| format!("{e}")),
                    forge: |h| Box::new(R(<$C as Contract>::new(h))),
                }
            }
        }
    };
}

contract!(CAll,
    SAll { a0: u8, a1: u16, a2: u32, a3: u64, a4: i8, a5: i16, a6: i32, a7: i64, a8: bool, a9: f32, a10: f64, a11: String, a12: ObjectHandle, a13: ContractDataHandle,
           v0: Vec<u8>, v1: Vec<u16>, v2: Vec<u32>, v3: Vec<u64>, v4: Vec<i8>, v5: Vec<i16>, v6: Vec<i32>, v7: Vec<i64>, v8: Vec<bool>, v9: Vec<f32>, v10: Vec<f64>, v11: Vec<String>, v12: Vec<ObjectHandle>, v13: Vec<ContractDataHandle> },
    ChAll { a0: u8, a1: u16, a2: u32, a3: u64, a4: i8, a5: i16, a6: i32, a7: i64, a8: bool, a9: f32, a10: f64, a11: String, a12: ObjectHandle, a13: ContractDataHandle,
           v0: Vec<u8>, v1: Vec<u16>, v2: Vec<u32>, v3: Vec<u64>, v4: Vec<i8>, v5: Vec<i16>, v6: Vec<i32>, v7: Vec<i64>, v8: Vec<bool>, v9: Vec<f32>, v10: Vec<f64>, v11: Vec<String>, v12: Vec<ObjectHandle>, v13: Vec<ContractDataHandle> },
    "verif.all", (1, 2, 3));
contract!(CPair, SPair { a: u8, b: String }, ChPair { c: f32 }, "verif.pair", (1, 0, 0));
// the same name and fields, another version
contract!(CPair2, SPair2 { a: u8, b: String }, ChPair2 { c: f32 }, "verif.pair", (1, 0, 1));
contract!(CRep, SRep { a: u8, b: u8, c: u8, d: String, e: u8 }, ChRep { x: u8, y: u8 }, "verif.rep", (0, 1, 0));
contract!(CList, SList { a: Vec<u8>, b: Vec<String>, c: Vec<ObjectHandle>, d: ContractDataHandle }, ChList { x: Vec<f32>, y: f64 }, "verif.list", (0, 0, 1));
contract!(CNone, SNone {}, ChNone {}, "verif.none", (0, 0, 0));
contract!(CStates, SStates { a: i64, b: i64, c: bool }, ChStates {}, "verif.states", (7, 7, 7));
contract!(CChans, SChans {}, ChChans { a: String, b: Vec<u64>, c: bool }, "verif.chans", (7, 7, 8));

pub fn kinds() -> Vec<Kind> {
    vec![
        CAll::kind(),
        CPair::kind(),
        CPair2::kind(),
        CRep::kind(),
        CList::kind(),
        CNone::kind(),
        CStates::kind(),
        CChans::kind(),
    ]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
    RegOk,
    RegBad,
    UnregOk,
    UnregBad,
    CreateOk,
    CreateBad,
    RemoveOk,
    RemoveBad,
    Write,
    Warp,
    Audit,
}
impl Op {
    pub fn props(self) -> &'static [&'static str] {
        match self {
            Op::RegOk | Op::RegBad => &["C03"],
            Op::UnregBad => &["C03"],
            Op::UnregOk => &["C02", "C03"],
            Op::CreateOk | Op::RemoveOk | Op::RemoveBad => &["C02"],
            Op::CreateBad => &["C04"],
            Op::Write => &["C05"],
            Op::Warp | Op::Audit => &["C02", "C05"],
        }
    }
}

#[derive(Debug)]
pub struct Fail {
    pub props: Vec<&'static str>,
    pub msg: String,
}
type Res = Result<(), Fail>;

fn fail<T>(a: &[&'static str], b: &[&'static str], msg: String) -> Result<T, Fail> {
    let s: BTreeSet<&'static str> = a.iter().chain(b).copied().collect();
    Err(Fail {
        props: s.into_iter().collect(),
        msg,
    })
}

pub struct MReg {
    pub kind: usize,
    pub reg: Box<dyn Reg>,
    pub handle: ContractDataHandle,
    pub live: bool,
}
pub struct MObj {
    pub h: ObjectHandle,
    pub reg: usize,
    pub s: Vec<Val>,
    pub c: Vec<Frames>,
    pub sh: Vec<(usize, u64)>,
    pub ch: Vec<(usize, u64)>,
    pub offset: i32,
    pub scale: i32,
    pub live: bool,
    pub unregistered: bool,
}

/// The model of one baseline.
#[derive(Default)]
pub struct Model {
    pub regs: Vec<MReg>,
    pub objs: Vec<MObj>,
}
impl Model {
    pub fn live_objs(&self) -> Vec<usize> {
        (0..self.objs.len()).filter(|i| self.objs[*i].live).collect()
    }
    pub fn live_regs(&self) -> Vec<usize> {
        (0..self.regs.len()).filter(|i| self.regs[*i].live).collect()
    }
    /// what the history amounts to, to count distinct states
    fn shape(&self) -> u64 {
        let regs: Vec<_> = self.regs.iter().map(|r| (r.kind, r.live)).collect();
        let objs: Vec<_> = self
            .objs
            .iter()
            .map(|o| (o.reg, o.live, raw(o.h), h64(&o.s), h64(&o.c), o.offset, o.scale))
            .collect();
        h64((regs, objs))
    }
}

pub fn sh<T: Prop>(r: (usize, u64)) -> StateHandle<T> {
    arena::Index::new(GaIndex::from_raw_parts(r.0, r.1))
}
pub fn chh<T: Prop>(r: (usize, u64)) -> ChannelHandle<T> {
    arena::Index::new(GaIndex::from_raw_parts(r.0, r.1))
}

#[derive(Clone, Debug)]
pub struct Weights {
    pub reg: usize,
    pub unreg: usize,
    pub create: usize,
    pub create_bad: usize,
    pub remove: usize,
    pub remove_bad: usize,
    pub write: usize,
    pub bulk: usize,
}

pub struct World {
    pub kinds: Vec<Kind>,
    pub realm: Realm,
    pub m: [Model; 2],
    pub log: Vec<String>,
    pub states_seen: HashSet<u64>,
    pub reads: u64,
    pub binds: u64,
    pub probes: u64,
    /// The realm's clock is moved between operations
    pub move_clock: bool,
    pub ops: BTreeMap<Op, u64>,
    pub max_live: usize,
    /// Probes of dead things per audit
    pub dead_probes: usize,
    pub bulk_n: usize,
    /// Restricts the kinds of contract used (all if empty)
    pub use_kinds: Vec<usize>,
    /// The last operation
    pub cur: Op,
}

fn which(i: usize) -> BaselineKind {
    if i == 0 {
        BaselineKind::Main
    } else {
        BaselineKind::Fork
    }
}

impl World {
    pub fn new() -> Self {
        Self {
            kinds: kinds(),
            realm: Realm::new(RealmID::new("verif".into())),
            m: Default::default(),
            log: vec![],
            states_seen: HashSet::new(),
            reads: 0,
            binds: 0,
            probes: 0,
            move_clock: false,
            ops: BTreeMap::new(),
            max_live: 24,
            dead_probes: 6,
            bulk_n: 150,
            use_kinds: vec![],
            cur: Op::Audit,
        }
    }
    pub fn note(&mut self, s: String) {
        self.log.push(s);
        if self.log.len() > 400 {
            self.log.drain(..200);
        }
    }
    fn base(&self, w: usize) -> &Baseline {
        self.realm.baseline(which(w))
    }
    fn base_mut(&mut self, w: usize) -> &mut Baseline {
        self.realm.baseline_mut(which(w))
    }
    fn any_kind(&self, r: &mut Rng) -> usize {
        if self.use_kinds.is_empty() {
            r.below(self.kinds.len())
        } else {
            *r.pick(&self.use_kinds)
        }
    }

    /// One random operation on one of the baselines, then the audit.
    pub fn step(&mut self, r: &mut Rng, wt: &Weights, audit: bool) -> Res {
        let w = r.below(2);
        if self.move_clock && r.chance(1, 20) {
            let t = [0, -1, 1, i32::MIN, i32::MAX, r.next() as i32][r.below(6)];
            *self.realm.time_mut().ticks_mut() = Ticks::from(t);
            self.note(format!("the realm's clock is set to {t}"));
        }
        let total = wt.reg + wt.unreg + wt.create + wt.create_bad + wt.remove + wt.remove_bad + wt.write + wt.bulk;
        let mut x = r.below(total);
        macro_rules! take {
            ($n:expr) => {
                if x < $n {
                    true
                } else {
                    x -= $n;
                    false
                }
            };
        }
        let op = if take!(wt.reg) {
            self.op_register(w, r)?
        } else if take!(wt.unreg) {
            self.op_unregister(w, r)?
        } else if take!(wt.create) {
            self.op_create(w, r)?
        } else if take!(wt.create_bad) {
            self.op_create_bad(w, r)?
        } else if take!(wt.remove) {
            self.op_remove(w, r)?
        } else if take!(wt.remove_bad) {
            self.op_remove_bad(w, r)?
        } else if take!(wt.write) {
            self.op_write(w, r)?
        } else {
            let _ = x;
            self.op_bulk(w, r)?
        };
        *self.ops.entry(op).or_insert(0) += 1;
        self.cur = op;
        if audit {
            self.audit(w, op, r)?;
            if op == Op::CreateBad && r.chance(1, 3) {
                self.orphans(w, &["C04"], "after a failed creation")?;
            }
            // the other baseline must be untouched by it
            if r.chance(1, 3) {
                self.audit(1 - w, op, r)?;
            }
        }
        let s = self.m[w].shape();
        self.states_seen.insert(s);
        Ok(())
    }

    pub fn op_register(&mut self, w: usize, r: &mut Rng) -> Result<Op, Fail> {
        let k = self.any_kind(r);
        self.register_kind(w, k)
    }
    pub fn register_kind(&mut self, w: usize, k: usize) -> Result<Op, Fail> {
        let live = self.m[w].regs.iter().any(|g| g.live && g.kind == k);
        self.note(format!("[{w}] register {} (live: {live})", self.kinds[k].name));
        let f = self.kinds[k].register;
        let res = guarded(|| f(self.realm.baseline_mut(which(w))));
        match res {
            Err(p) => fail(&["C03"], &[], format!("register_contract panicked: {p}")),
            Ok(Ok(_)) if live => fail(&["C03"], &[], "registered the same contract twice".into()),
            Ok(Err(e)) if !live => fail(&["C03"], &[], format!("could not register a contract that is not registered: {e}")),
            Ok(Err(_)) => Ok(Op::RegBad),
            Ok(Ok(reg)) => {
                let handle = reg.handle();
                if self.m[w].regs.iter().any(|g| g.handle == handle) {
                    return fail(&["C03", "C06"], &[], "a new registration reused the handle of an earlier one".into());
                }
                self.m[w].regs.push(MReg { kind: k, reg, handle, live: true });
                Ok(Op::RegOk)
            }
        }
    }

    pub fn op_unregister(&mut self, w: usize, r: &mut Rng) -> Result<Op, Fail> {
        if self.m[w].regs.is_empty() {
            return self.op_register(w, r);
        }
        let g = r.below(self.m[w].regs.len());
        let k = if r.chance(1, 4) { r.below(self.kinds.len()) } else { self.m[w].regs[g].kind };
        self.unregister(w, g, k)
    }
    pub fn unregister(&mut self, w: usize, g: usize, k: usize) -> Result<Op, Fail> {
        let handle = self.m[w].regs[g].handle;
        let ok = self.m[w].regs[g].live && self.m[w].regs[g].kind == k;
        self.note(format!("[{w}] unregister {} with handle of reg#{g} {:?}, should succeed: {ok}", self.kinds[k].name, raw(handle)));
        let f = self.kinds[k].unregister;
        match guarded(|| f(self.realm.baseline_mut(which(w)), handle)) {
            Err(p) => fail(&["C03"], &[], format!("unregister_contract panicked: {p}")),
            Ok(Ok(())) if !ok => fail(&["C03"], &[], "unregistered with a stale or foreign handle".into()),
            Ok(Err(e)) if ok => fail(&["C03"], &[], format!("could not unregister a live contract: {e}")),
            Ok(Err(_)) => Ok(Op::UnregBad),
            Ok(Ok(())) => {
                self.m[w].regs[g].live = false;
                for o in self.m[w].objs.iter_mut().filter(|o| o.live && o.reg == g) {
                    o.live = false;
                    o.unregistered = true;
                }
                Ok(Op::UnregOk)
            }
        }
    }

    fn fields(&self, k: usize, r: &mut Rng) -> (Vec<Val>, Vec<Frames>) {
        let s = self.kinds[k].states.iter().map(|(t, l)| gen_val(*t, *l, r)).collect();
        let c = self.kinds[k].chans.iter().map(|(t, l)| gen_frames(*t, *l, r)).collect();
        (s, c)
    }

    fn iters(s: Vec<DynTpProperty>, c: Vec<DynChannel>, r: &mut Rng) -> (BoxIter<DynTpProperty>, BoxIter<DynChannel>) {
        // different kinds of iterator: with and without useful size hints
        match r.below(4) {
            0 => (Box::new(s.into_iter()), Box::new(c.into_iter())),
            3 => {
                // no more than usize::MAX items
                let (mut s, mut c) = (s.into_iter(), c.into_iter());
                (Box::new((0..usize::MAX).map_while(move |_| s.next())), Box::new((0..usize::MAX).map_while(move |_| c.next())))
            }
            1 => {
                let (mut s, mut c) = (s.into_iter(), c.into_iter());
                (Box::new(std::iter::from_fn(move || s.next())), Box::new(std::iter::from_fn(move || c.next())))
            }
            _ => (Box::new(s.into_iter().chain(std::iter::empty())), Box::new(c.into_iter().filter(|_| true))),
        }
    }

    pub fn op_create(&mut self, w: usize, r: &mut Rng) -> Result<Op, Fail> {
        let live = self.m[w].live_regs();
        if live.is_empty() {
            return self.op_register(w, r);
        }
        if self.m[w].live_objs().len() >= self.max_live {
            return self.op_remove(w, r);
        }
        let g = *r.pick(&live);
        self.create_in(w, g, r)?;
        Ok(Op::CreateOk)
    }

    pub fn create_in(&mut self, w: usize, g: usize, r: &mut Rng) -> Result<usize, Fail> {
        let k = self.m[w].regs[g].kind;
        let (s, c) = self.fields(k, r);
        let ds = s.iter().map(to_dyn).collect();
        let dc = c.iter().zip(&self.kinds[k].chans).map(|(f, (t, l))| to_dyn_chan(*t, *l, f)).collect();
        let (ds, dc) = Self::iters(ds, dc, r);
        self.note(format!("[{w}] create object of {} (reg#{g})", self.kinds[k].name));
        let (realm, m) = (&mut self.realm, &self.m);
        let h = match guarded(|| m[w].regs[g].reg.create(realm.baseline_mut(which(w)), ds, dc)) {
            Err(p) => return fail(&["C04"], &[], format!("object_create panicked: {p}")),
            Ok(Err(e)) => {
                let again = m[w].regs.iter().filter(|x| x.kind == k).count() > 1;
                return fail(&["C04"], if again { &["C03"] } else { &[] }, format!("object_create refused matching fields: {e}"));
            }
            Ok(Ok(h)) => h,
        };
        if self.m[w].objs.iter().any(|o| o.h == h) {
            return fail(&["C02", "C06"], &[], "a new object got the handle of an earlier object".into());
        }
        let idx = self.m[w].objs.len();
        self.m[w].objs.push(MObj {
            h,
            reg: g,
            s,
            c,
            sh: vec![],
            ch: vec![],
            offset: 0,
            scale: 1024,
            live: true,
            unregistered: false,
        });
        self.bind_all(w, idx)?;
        Ok(idx)
    }

    /// Binds every field of a live object, checks that repeated binds agree.
    fn bind_all(&mut self, w: usize, i: usize) -> Res {
        let o = &self.m[w].objs[i];
        let reg = &self.m[w].regs[o.reg];
        let kind = &self.kinds[reg.kind];
        let (h, ch) = (o.h, reg.handle);
        let b = self.realm.baseline(which(w));
        let mut sv = vec![];
        for (f, (t, l)) in kind.states.iter().enumerate() {
            let x = dispatch!(*t, *l, T => bind_s::<T>(b, StateId::<T>::new(f, ch), h))?;
            sv.push(x);
        }
        let mut cv = vec![];
        for (f, (t, l)) in kind.chans.iter().enumerate() {
            let x = dispatch!(*t, *l, T => bind_c::<T>(b, ChannelId::<T>::new(f, ch), h))?;
            cv.push(x);
        }
        self.binds += (sv.len() + cv.len()) as u64;
        let o = &mut self.m[w].objs[i];
        if o.sh.is_empty() && o.ch.is_empty() {
            o.sh = sv;
            o.ch = cv;
        } else if o.sh != sv || o.ch != cv {
            return fail(&["C06"], &[], "binding the same field again gave another handle".into());
        }
        Ok(())
    }

    pub fn op_create_bad(&mut self, w: usize, r: &mut Rng) -> Result<Op, Fail> {
        if self.m[w].regs.is_empty() {
            return self.op_register(w, r);
        }
        let live = self.m[w].live_regs();
        let mode = r.below(14);
        // contract values that are not registered here
        if mode >= 11 || live.is_empty() {
            let dead: Vec<usize> = (0..self.m[w].regs.len()).filter(|g| !self.m[w].regs[*g].live).collect();
            let (reg, k, what): (Option<Box<dyn Reg>>, usize, String) = if mode == 11 && !dead.is_empty() {
                let g = *r.pick(&dead);
                (None, g, "stale contract".into())
            } else {
                // another contract's value around a live (or never used) handle
                let k = r.below(self.kinds.len());
                let others: Vec<usize> = live.iter().copied().filter(|g| self.m[w].regs[*g].kind != k).collect();
                let h = if others.is_empty() || mode == 12 {
                    chandle(1000 + r.below(5), 0)
                } else {
                    self.m[w].regs[*r.pick(&others)].handle
                };
                (Some((self.kinds[k].forge)(h)), k, format!("foreign contract value {} with handle {:?}", self.kinds[k].name, raw(h)))
            };
            let kind = if reg.is_some() { k } else { self.m[w].regs[k].kind };
            let (s, c) = self.fields(kind, r);
            let ds: Vec<_> = s.iter().map(to_dyn).collect();
            let dc: Vec<_> = c.iter().zip(&self.kinds[kind].chans).map(|(f, (t, l))| to_dyn_chan(*t, *l, f)).collect();
            let (ds, dc) = Self::iters(ds, dc, r);
            self.note(format!("[{w}] create with {what}"));
            let (realm, m) = (&mut self.realm, &self.m);
            let reg: &dyn Reg = match &reg {
                Some(x) => x.as_ref(),
                None => m[w].regs[k].reg.as_ref(),
            };
            return match guarded(|| reg.create(realm.baseline_mut(which(w)), ds, dc)) {
                Err(p) => fail(&["C04"], &[], format!("object_create panicked: {p}")),
                Ok(Ok(_)) => fail(&["C04"], if what == "stale contract" { &["C03"] } else { &[] }, format!("object_create accepted a {what}")),
                Ok(Err(_)) => Ok(Op::CreateBad),
            };
        }
        let g = *r.pick(&live);
        let k = self.m[w].regs[g].kind;
        let mut st = self.kinds[k].states.clone();
        let mut ct = self.kinds[k].chans.clone();
        // change the states, the channels, or both
        let sel = r.below(3);
        let mut long = [false, false];
        let mut panics = None;
        let mut what = String::new();
        for (j, ts) in [&mut st, &mut ct].into_iter().enumerate() {
            if sel != 2 && sel != j {
                continue;
            }
            let n = ts.len();
            let before = ts.clone();
            match mode {
                0 => {
                    ts.pop();
                }
                1 if n > 0 => {
                    ts.remove(0);
                }
                2 => ts.push((r.below(14), r.chance(1, 2))),
                3 if n > 0 => {
                    let i = r.below(n);
                    ts.remove(i);
                }
                4 if n > 1 => {
                    let (a, b) = (r.below(n), r.below(n));
                    ts.swap(a, b);
                }
                5 if n > 0 => {
                    let i = r.below(n);
                    ts[i].1 = !ts[i].1;
                }
                6 if n > 0 => {
                    let i = r.below(n);
                    ts[i].0 = (ts[i].0 + 1 + r.below(13)) % 14;
                }
                7 => ts.clear(),
                8 => {
                    let last = ts.last().copied().unwrap_or((0, false));
                    ts.push(last)
                }
                9 => long[j] = true,
                10 if n > 0 => panics = Some((j, r.below(n))),
                _ if n > 0 => {
                    let i = n - 1;
                    ts[i].0 = (ts[i].0 + 1) % 14;
                }
                _ => {}
            }
            if *ts != before || long[j] {
                what = format!("{what} mode {mode} on {}", ["states", "channels"][j]);
            }
        }
        if what.is_empty() && panics.is_none() {
            // nothing was changed (no fields to change): add one
            st.push((r.below(14), false));
            what = " extra state".into();
        }
        if let Some((j, i)) = panics {
            what = format!("{} iterator panics at {i}", ["state", "channel"][j]);
        }
        let ds: Vec<_> = st.iter().map(|(t, l)| to_dyn(&gen_val(*t, *l, r))).collect();
        let dc: Vec<_> = ct.iter().map(|(t, l)| to_dyn_chan(*t, *l, &gen_frames(*t, *l, r))).collect();
        let (mut ds, mut dc) = Self::iters(ds, dc, r);
        if long[0] {
            let (t, l) = st.last().copied().unwrap_or((0, false));
            let v = gen_val(t, l, r);
            ds = Box::new(ds.chain(std::iter::repeat(()).take(300).map(move |_| to_dyn(&v))));
        }
        if long[1] {
            let (t, l) = ct.last().copied().unwrap_or((0, false));
            let v = gen_frames(t, l, r);
            dc = Box::new(dc.chain(std::iter::repeat(()).take(300).map(move |_| to_dyn_chan(t, l, &v))));
        }
        if let Some((j, i)) = panics {
            if j == 0 {
                ds = Box::new(ds.enumerate().map(move |(n, v)| if n == i { panic!("from the iterator") } else { v }));
            } else {
                dc = Box::new(dc.enumerate().map(move |(n, v)| if n == i { panic!("from the iterator") } else { v }));
            }
        }
        self.note(format!("[{w}] create {} (reg#{g}) badly: {what}", self.kinds[k].name));
        let (realm, m) = (&mut self.realm, &self.m);
        match guarded(|| m[w].regs[g].reg.create(realm.baseline_mut(which(w)), ds, dc)) {
            Err(_) if panics.is_some() => Ok(Op::CreateBad),
            Err(p) => fail(&["C04"], &[], format!("object_create panicked on mismatched fields ({what}): {p}")),
            Ok(Ok(_)) => fail(&["C04"], &[], format!("object_create accepted mismatched fields ({what})")),
            Ok(Err(_)) => Ok(Op::CreateBad),
        }
    }

    pub fn op_remove(&mut self, w: usize, r: &mut Rng) -> Result<Op, Fail> {
        let live = self.m[w].live_objs();
        if live.is_empty() {
            return self.op_create(w, r);
        }
        let i = *r.pick(&live);
        self.remove_obj(w, i)
    }
    pub fn remove_obj(&mut self, w: usize, i: usize) -> Result<Op, Fail> {
        let h = self.m[w].objs[i].h;
        let k = self.m[w].regs[self.m[w].objs[i].reg].kind;
        self.note(format!("[{w}] remove object#{i} of {}", self.kinds[k].name));
        let f = self.kinds[k].remove;
        match guarded(|| f(self.realm.baseline_mut(which(w)), h)) {
            Err(p) => fail(&["C02"], &[], format!("object_remove panicked: {p}")),
            Ok(Err(e)) => fail(&["C02"], &[], format!("object_remove refused a live object of {}: {e}", self.kinds[k].name)),
            Ok(Ok(())) => {
                self.m[w].objs[i].live = false;
                Ok(Op::RemoveOk)
            }
        }
    }
    pub fn op_remove_bad(&mut self, w: usize, r: &mut Rng) -> Result<Op, Fail> {
        if self.m[w].objs.is_empty() {
            return self.op_create(w, r);
        }
        let n = self.m[w].objs.len();
        let i = if r.chance(1, 2) { r.below(n) } else { n - 1 - r.below(n.min(8)) };
        let (h, live) = (self.m[w].objs[i].h, self.m[w].objs[i].live);
        let k = self.m[w].regs[self.m[w].objs[i].reg].kind;
        let (k, h) = if live {
            ((k + 1 + r.below(self.kinds.len() - 1)) % self.kinds.len(), h)
        } else if r.chance(1, 8) {
            (k, ohandle(100_000, 0))
        } else {
            (k, h)
        };
        self.note(format!("[{w}] remove object#{i} (live: {live}) as {}", self.kinds[k].name));
        let f = self.kinds[k].remove;
        match guarded(|| f(self.realm.baseline_mut(which(w)), h)) {
            Err(p) => fail(&["C02"], &[], format!("object_remove panicked: {p}")),
            Ok(Ok(())) => fail(&["C02"], &[], format!("object_remove succeeded for a dead object or the wrong contract (live: {live})")),
            Ok(Err(_)) => Ok(Op::RemoveBad),
        }
    }

    pub fn op_write(&mut self, w: usize, r: &mut Rng) -> Result<Op, Fail> {
        let live = self.m[w].live_objs();
        if live.is_empty() {
            return self.op_create(w, r);
        }
        let i = *r.pick(&live);
        if r.chance(1, 12) {
            // often the same as another object's, or the default
            let (off, sc) = match r.below(4) {
                0 => (r.next() as i32, r.next() as i32),
                1 => (0, r.next() as i32),
                _ => (*r.pick(&[0, 0, 5, -7]), *r.pick(&[1024, 512, 0, -3])),
            };
            let h = self.m[w].objs[i].h;
            let by_index = r.chance(1, 2);
            let b = self.base_mut(w);
            let res = guarded(|| {
                let o = if by_index { &mut b[h] } else { b.object_mut(h).map_err(|e| format!("{e}"))? };
                *o.time_warp_mut() = (Ticks::from(off), TimeScale::from(sc)).into();
                Ok::<(), String>(())
            });
            if !matches!(res, Ok(Ok(()))) {
                return fail(&["C02"], &[], format!("object_mut failed for a live object: {res:?}"));
            }
            self.m[w].objs[i].offset = off;
            self.m[w].objs[i].scale = sc;
            self.note(format!("[{w}] time warp of object#{i}"));
            return Ok(Op::Warp);
        }
        let g = self.m[w].objs[i].reg;
        let k = self.m[w].regs[g].kind;
        let (ns, nc) = (self.kinds[k].states.len(), self.kinds[k].chans.len());
        if ns + nc == 0 {
            return Ok(Op::Audit);
        }
        let f = r.below(ns + nc);
        let path = r.below(6);
        if f < ns {
            let (t, l) = self.kinds[k].states[f];
            let mut v = gen_val(t, l, r);
            let raw_h = self.m[w].objs[i].sh[f];
            if path == 3 || path == 4 {
                // borrowed views of lists cannot change their length
                let n = self.m[w].objs[i].s[f].cells.len();
                v.cells = (0..n).map(|_| gen_cell(t, r)).collect();
            }
            self.note(format!("[{w}] write state {f} of object#{i} ({}) by path {path}", self.kinds[k].name));
            let b = self.base_mut(w);
            let res = guarded(|| dispatch!(t, l, T => write_state::<T>(b, raw_h, &v, path)));
            match res {
                Err(p) => return fail(&["C05"], &[], format!("writing a state by path {path} panicked: {p}")),
                Ok(Err(e)) => return fail(&["C05"], &[], format!("writing a state by path {path} failed: {e}")),
                Ok(Ok(old)) => {
                    if let Some(old) = old {
                        if old != self.m[w].objs[i].s[f] {
                            return fail(&["C05"], &[], format!("a swapped-out state held {old:?}, not the last write {:?}", self.m[w].objs[i].s[f]));
                        }
                    }
                }
            }
            self.m[w].objs[i].s[f] = v;
        } else {
            let f = f - ns;
            let (t, l) = self.kinds[k].chans[f];
            let mut v = gen_frames(t, l, r);
            let raw_h = self.m[w].objs[i].ch[f];
            if path == 5 {
                // through the mutable view anything can be stored, in any order
                match r.below(4) {
                    0 => r.shuffle(&mut v),
                    1 => {
                        r.shuffle(&mut v);
                        let times = [0.0f64, -0.0, 1.0, 1.0, f64::NAN, f64::INFINITY, -3.5];
                        v.iter_mut().for_each(|k| k.1 = r.pick(&times).to_bits());
                    }
                    _ => {
                        // one change to what is there
                        v = self.m[w].objs[i].c[f].clone();
                        let n = v.len();
                        let time = (r.below(9) as f64 - 4.0).to_bits();
                        match r.below(4) {
                            0 if n > 0 => v[r.below(n)] = (gen_val(t, l, r), time),
                            1 if n > 0 => {
                                v.remove(r.below(n));
                            }
                            2 if n > 1 => {
                                let (a, b) = (r.below(n), r.below(n));
                                v.swap(a, b)
                            }
                            _ => v.insert(r.below(n + 1), (gen_val(t, l, r), time)),
                        }
                    }
                }
            }
            self.note(format!("[{w}] write channel {f} of object#{i} ({}) by path {path}", self.kinds[k].name));
            let b = self.base_mut(w);
            let res = guarded(|| dispatch!(t, l, T => write_chan::<T>(b, raw_h, &v, path)));
            match res {
                Err(p) => return fail(&["C05"], &[], format!("writing a channel by path {path} panicked: {p}")),
                Ok(Err(e)) => return fail(&["C05"], &[], format!("writing a channel by path {path} failed: {e}")),
                Ok(Ok(())) => {}
            }
            self.m[w].objs[i].c[f] = v;
        }
        Ok(Op::Write)
    }

    /// Many objects at once, or many generations of one slot.
    pub fn op_bulk(&mut self, w: usize, r: &mut Rng) -> Result<Op, Fail> {
        let small: Vec<usize> = self.m[w]
            .live_regs()
            .into_iter()
            .filter(|g| {
                let k = &self.kinds[self.m[w].regs[*g].kind];
                k.states.len() + k.chans.len() < 10
            })
            .collect();
        if small.is_empty() {
            return self.op_register(w, r);
        }
        let g = *r.pick(&small);
        let n = 2 + r.below(self.bulk_n);
        if r.chance(1, 2) {
            let mut made = vec![];
            for _ in 0..n {
                made.push(self.create_in(w, g, r)?);
            }
            self.audit(w, Op::CreateOk, r)?;
            match r.below(3) {
                0 => {
                    let k = self.m[w].regs[g].kind;
                    self.unregister(w, g, k)
                }
                1 => {
                    r.shuffle(&mut made);
                    for i in made {
                        self.remove_obj(w, i)?;
                    }
                    Ok(Op::RemoveOk)
                }
                _ => {
                    for i in made.into_iter().step_by(2) {
                        self.remove_obj(w, i)?;
                    }
                    Ok(Op::RemoveOk)
                }
            }
        } else {
            for _ in 0..n {
                let i = self.create_in(w, g, r)?;
                self.remove_obj(w, i)?;
            }
            Ok(Op::RemoveOk)
        }
    }

    /// Compares everything observable with the model.
    pub fn audit(&mut self, w: usize, op: Op, r: &mut Rng) -> Res {
        let b = self.realm.baseline(which(w));
        let m = &self.m[w];
        let opp = op.props();
        if b.kind() != which(w) {
            return fail(&["C05"], &[], "a realm returned the wrong baseline".into());
        }
        // -- objects
        let live: HashMap<(usize, u64), usize> = m.live_objs().into_iter().map(|i| (raw(m.objs[i].h), i)).collect();
        let mut seen = HashSet::new();
        let mut steps = 0;
        for (h, o) in b.iter_objects() {
            steps += 1;
            if steps > live.len() + 4 {
                return fail(&[], opp, "iter_objects yields more objects than are alive".into());
            }
            let Some(i) = live.get(&raw(h)) else {
                return fail(&[], opp, format!("iter_objects yields {:?}, which is not alive", raw(h)));
            };
            if !seen.insert(raw(h)) {
                return fail(&[], opp, "iter_objects yields an object twice".into());
            }
            if o.contract() != m.regs[m.objs[*i].reg].handle {
                return fail(&[], opp, "an object names another contract".into());
            }
        }
        if seen.len() != live.len() {
            return fail(&[], opp, format!("iter_objects yields {} of {} live objects", seen.len(), live.len()));
        }
        for i in m.live_objs() {
            let mo = &m.objs[i];
            match b.object(mo.h) {
                Err(e) => return fail(&[], opp, format!("a live object is not there: {e}")),
                Ok(o) => {
                    if o.contract() != m.regs[mo.reg].handle {
                        return fail(&[], opp, "an object names another contract".into());
                    }
                    let t = o.time_warp();
                    if t.offset.as_millis() != mo.offset || t.scale.numerator() != mo.scale {
                        return fail(&[], opp, format!("an object's time warp changed (op {op:?})"));
                    }
                }
            }
            if !std::ptr::eq(&b[mo.h], b.object(mo.h).unwrap()) {
                return fail(&[], opp, "indexing gives another object than object()".into());
            }
        }
        // -- contracts
        let mut creg: Vec<&'static str> = vec!["C03"];
        creg.extend(opp);
        for (g, mr) in m.regs.iter().enumerate() {
            match (b.contract_data(mr.handle), mr.live) {
                (Ok(_), false) => return fail(&["C03"], opp, format!("the handle of an unregistered contract (reg#{g}) is still accepted")),
                (Err(e), true) => return fail(&creg, &[], format!("a registered contract (reg#{g}) is gone: {e}")),
                (Err(_), false) => {}
                (Ok(d), true) => {
                    let id = self.kinds[mr.kind].id;
                    if d.id().name != id.name || d.id().version != id.version {
                        return fail(&creg, &[], "contract data shows another identity".into());
                    }
                    let want: HashSet<(usize, u64)> = m.objs.iter().filter(|o| o.live && o.reg == g).map(|o| raw(o.h)).collect();
                    let got: HashSet<(usize, u64)> = d.objects().iter().map(|h| raw(*h)).collect();
                    if want != got || d.objects().len() != want.len() {
                        return fail(&[], opp, format!("contract reg#{g} lists {} objects, {} are alive (op {op:?})", got.len(), want.len()));
                    }
                }
            }
        }
        // -- fields of live objects
        let mut reads = 0;
        let mut binds = 0;
        let all = live.len() <= 30;
        let mut storage_s: HashSet<(usize, bool, (usize, u64))> = HashSet::new();
        let mut storage_c: HashSet<(usize, bool, (usize, u64))> = HashSet::new();
        let stale: Vec<ContractDataHandle> = m.regs.iter().filter(|g| !g.live).rev().take(4).map(|g| g.handle).collect();
        let others: Vec<ContractDataHandle> = m.regs.iter().filter(|g| g.live).map(|g| g.handle).collect();
        for i in m.live_objs() {
            let mo = &m.objs[i];
            let mr = &m.regs[mo.reg];
            let kind = &self.kinds[mr.kind];
            if !all && !r.chance(25, live.len()) {
                continue;
            }
            for (f, (t, l)) in kind.states.iter().enumerate() {
                if !storage_s.insert((*t, *l, mo.sh[f])) {
                    return fail(&["C05", "C06"], &[], format!("two (object, field) pairs share the storage of state {f}"));
                }
                let path = r.below(6);
                let x = guarded(|| dispatch!(*t, *l, T => read_state::<T>(b, mo.sh[f], path)));
                reads += 1;
                match x {
                    Err(p) => return fail(&["C05"], opp, format!("reading state {f} by path {path} panicked: {p}")),
                    Ok(Err(e)) => return fail(&["C05"], opp, format!("state {f} of a live object cannot be read by path {path}: {e} (op {op:?})")),
                    Ok(Ok(v)) if v != mo.s[f] => {
                        return fail(&["C05"], opp, format!("state {f} of object#{i} reads {v:?} by path {path}, last write was {:?} (op {op:?})", mo.s[f]));
                    }
                    _ => {}
                }
                if r.chance(1, 3) {
                    binds += 1;
                    let x = dispatch!(*t, *l, T => check_bind_s::<T>(b, f, mo.h, mr.handle, mo.sh[f], &stale, &others))?;
                    let _ = x;
                }
            }
            for (f, (t, l)) in kind.chans.iter().enumerate() {
                if !storage_c.insert((*t, *l, mo.ch[f])) {
                    return fail(&["C05", "C06"], &[], format!("two (object, field) pairs share the storage of channel {f}"));
                }
                let path = r.below(5);
                let x = guarded(|| dispatch!(*t, *l, T => read_chan::<T>(b, mo.ch[f], path)));
                reads += 1;
                match x {
                    Err(p) => return fail(&["C05"], opp, format!("reading channel {f} by path {path} panicked: {p}")),
                    Ok(Err(e)) => return fail(&["C05"], opp, format!("channel {f} of a live object cannot be read by path {path}: {e} (op {op:?})")),
                    Ok(Ok(v)) if v != mo.c[f] => {
                        return fail(&["C05"], opp, format!("channel {f} of object#{i} reads {v:?} by path {path}, last write was {:?} (op {op:?})", mo.c[f]));
                    }
                    _ => {}
                }
                if r.chance(1, 3) {
                    binds += 1;
                    dispatch!(*t, *l, T => check_bind_c::<T>(b, f, mo.h, mr.handle, mo.ch[f], &stale, &others))?;
                }
            }
        }
        // -- the dead stay dead
        let dead: Vec<usize> = (0..m.objs.len()).filter(|i| !m.objs[*i].live).collect();
        for n in 0..self.dead_probes.min(dead.len()) {
            let i = if n % 2 == 0 { dead[dead.len() - 1 - n / 2] } else { *r.pick(&dead) };
            let mo = &m.objs[i];
            let mr = &m.regs[mo.reg];
            let kind = &self.kinds[mr.kind];
            let by: &[&'static str] = if mo.unregistered { &["C02", "C03"] } else { &["C02"] };
            if b.object(mo.h).is_ok() || guarded(|| b[mo.h].contract()).is_ok() {
                return fail(by, &[], "the handle of a removed object is still accepted".into());
            }
            let by5: Vec<&'static str> = by.iter().copied().chain(["C05"]).collect();
            let by6: Vec<&'static str> = by.iter().copied().chain(["C06"]).collect();
            for (f, (t, l)) in kind.states.iter().enumerate() {
                for path in 0..6 {
                    if path > 0 && !r.chance(1, 4) {
                        continue;
                    }
                    let x = guarded(|| dispatch!(*t, *l, T => read_state::<T>(b, mo.sh[f], path)));
                    if let Ok(Ok(v)) = x {
                        return fail(&by5, &[], format!("state {f} of a removed object still reads {v:?} by path {path}"));
                    }
                }
                if dispatch!(*t, *l, T => b.bind_state(StateId::<T>::new(f, mr.handle), mo.h).is_ok()) {
                    return fail(&by6, &[], "a field of a removed object was bound".into());
                }
            }
            for (f, (t, l)) in kind.chans.iter().enumerate() {
                for path in 0..5 {
                    if path > 0 && !r.chance(1, 4) {
                        continue;
                    }
                    let x = guarded(|| dispatch!(*t, *l, T => read_chan::<T>(b, mo.ch[f], path)));
                    if let Ok(Ok(v)) = x {
                        return fail(&by5, &[], format!("channel {f} of a removed object still reads {v:?} by path {path}"));
                    }
                }
                if dispatch!(*t, *l, T => b.bind_channel(ChannelId::<T>::new(f, mr.handle), mo.h).is_ok()) {
                    return fail(&by6, &[], "a field of a removed object was bound".into());
                }
            }
        }
        self.reads += reads;
        self.binds += binds;
        // writes to dead fields must be refused, too
        if !dead.is_empty() && r.chance(1, 4) {
            let i = *r.pick(&dead);
            let mo = &self.m[w].objs[i];
            let kind = &self.kinds[self.m[w].regs[mo.reg].kind];
            let by: &[&'static str] = if mo.unregistered { &["C02", "C03", "C05"] } else { &["C02", "C05"] };
            let (h, shs, chs) = (mo.h, mo.sh.clone(), mo.ch.clone());
            let (sts, cts) = (kind.states.clone(), kind.chans.clone());
            let b = self.base_mut(w);
            if b.object_mut(h).is_ok() {
                return fail(by, &[], "the handle of a removed object is still accepted for writing".into());
            }
            for (f, (t, l)) in sts.iter().enumerate() {
                if dispatch!(*t, *l, T => b.state_mut(sh::<T>(shs[f])).is_ok() || T::dyn_shandle(sh::<T>(shs[f])).get_mut(b).is_ok()) {
                    return fail(by, &[], "a state of a removed object can still be written".into());
                }
            }
            for (f, (t, l)) in cts.iter().enumerate() {
                if dispatch!(*t, *l, T => b.channel_mut(chh::<T>(chs[f])).is_ok() || T::dyn_chandle(chh::<T>(chs[f])).get_mut(b).is_ok()) {
                    return fail(by, &[], "a channel of a removed object can still be written".into());
                }
            }
        }
        Ok(())
    }
    /// No state or channel is there that no live object owns.
    pub fn orphans(&mut self, w: usize, by: &[&'static str], when: &str) -> Res {
        let m = &self.m[w];
        let b = self.realm.baseline(which(w));
        let mut owned: HashMap<(bool, usize, bool), (HashSet<(usize, u64)>, usize, u64, u64)> = HashMap::new();
        for o in &m.objs {
            let k = &self.kinds[m.regs[o.reg].kind];
            let s = k.states.iter().zip(&o.sh).map(|(t, h)| ((false, t.0, t.1), *h));
            let c = k.chans.iter().zip(&o.ch).map(|(t, h)| ((true, t.0, t.1), *h));
            for (t, h) in s.chain(c) {
                let e = owned.entry(t).or_default();
                if o.live {
                    e.0.insert(h);
                } else {
                    e.3 += 1;
                }
                e.1 = e.1.max(h.0);
                e.2 = e.2.max(h.1);
            }
        }
        let mut probes = 0;
        for chan in [false, true] {
            for ty in 0..14 {
                for list in [false, true] {
                    let e = owned.entry((chan, ty, list)).or_default();
                    let gens = e.2.max(e.3.min(400)) + 3;
                    let slots = (e.1 + 3).min(200);
                    for i in 0..slots {
                        for g in 0..gens {
                            if e.0.contains(&(i, g)) {
                                continue;
                            }
                            probes += 1;
                            let there = if chan {
                                dispatch!(ty, list, T => b.channel(chh::<T>((i, g))).is_ok())
                            } else {
                                dispatch!(ty, list, T => b.state(sh::<T>((i, g))).is_ok())
                            };
                            if there {
                                return fail(by, &[], format!("{when} a {} of type {} (list: {list}) is there that no object owns", if chan { "channel" } else { "state" }, TYPE_NAMES[ty]));
                            }
                        }
                    }
                }
            }
        }
        self.probes += probes;
        Ok(())
    }
    pub fn main(&self) -> &Baseline {
        self.base(0)
    }
}

fn bind_s<T: Prop>(b: &Baseline, id: StateId<T>, h: ObjectHandle) -> Result<(usize, u64), Fail> {
    match guarded(|| b.bind_state(id, h).map(raw).map_err(|e| format!("{e}"))) {
        Err(p) => fail(&["C06"], &[], format!("bind_state panicked: {p}")),
        Ok(Err(e)) => fail(&["C06"], &[], format!("a field of a live object cannot be bound: {e}")),
        Ok(Ok(x)) => Ok(x),
    }
}
fn bind_c<T: Prop>(b: &Baseline, id: ChannelId<T>, h: ObjectHandle) -> Result<(usize, u64), Fail> {
    match guarded(|| b.bind_channel(id, h).map(raw).map_err(|e| format!("{e}"))) {
        Err(p) => fail(&["C06"], &[], format!("bind_channel panicked: {p}")),
        Ok(Err(e)) => fail(&["C06"], &[], format!("a field of a live object cannot be bound: {e}")),
        Ok(Ok(x)) => Ok(x),
    }
}

fn check_bind_s<T: Prop>(b: &Baseline, f: usize, o: ObjectHandle, reg: ContractDataHandle, want: (usize, u64), stale: &[ContractDataHandle], others: &[ContractDataHandle]) -> Res {
    let id = StateId::<T>::new(f, reg);
    let got = bind_s::<T>(b, id, o)?;
    if got != want {
        return fail(&["C06"], &[], "binding the same state again gave another handle".into());
    }
    match guarded(|| b.object(o).ok().and_then(|ob| T::object_state(ob, id))) {
        Ok(None) => {}
        Ok(Some(h)) if raw(h) == want => {}
        Ok(Some(_)) => return fail(&["C06"], &[], "the object's own state lookup disagrees with the baseline's".into()),
        Err(p) => return fail(&["C06"], &[], format!("the object's own state lookup panicked: {p}")),
    }
    for h in stale {
        if b.bind_state(StateId::<T>::new(f, *h), o).is_ok() {
            return fail(&["C03", "C06"], &[], "a state id of an earlier registration was bound".into());
        }
        if guarded(|| b.object(o).ok().and_then(|ob| T::object_state(ob, StateId::<T>::new(f, *h)))).map_or(false, |x| x.is_some()) {
            return fail(&["C03", "C06"], &[], "the object's own lookup takes a state id of an earlier registration".into());
        }
    }
    for h in others.iter().filter(|h| **h != reg) {
        if b.bind_state(StateId::<T>::new(f, *h), o).is_ok() {
            return fail(&["C06"], &[], "a state id of another contract was bound".into());
        }
        if guarded(|| b.object(o).ok().and_then(|ob| T::object_state(ob, StateId::<T>::new(f, *h)))).map_or(false, |x| x.is_some()) {
            return fail(&["C06"], &[], "the object's own lookup takes a state id of another contract".into());
        }
    }
    Ok(())
}
fn check_bind_c<T: Prop>(b: &Baseline, f: usize, o: ObjectHandle, reg: ContractDataHandle, want: (usize, u64), stale: &[ContractDataHandle], others: &[ContractDataHandle]) -> Res {
    let id = ChannelId::<T>::new(f, reg);
    let got = bind_c::<T>(b, id, o)?;
    if got != want {
        return fail(&["C06"], &[], "binding the same channel again gave another handle".into());
    }
    match guarded(|| b.object(o).ok().and_then(|ob| T::object_channel(ob, id))) {
        Ok(None) => {}
        Ok(Some(h)) if raw(h) == want => {}
        Ok(Some(_)) => return fail(&["C06"], &[], "the object's own channel lookup disagrees with the baseline's".into()),
        Err(p) => return fail(&["C06"], &[], format!("the object's own channel lookup panicked: {p}")),
    }
    for h in stale {
        if b.bind_channel(ChannelId::<T>::new(f, *h), o).is_ok() {
            return fail(&["C03", "C06"], &[], "a channel id of an earlier registration was bound".into());
        }
        if guarded(|| b.object(o).ok().and_then(|ob| T::object_channel(ob, ChannelId::<T>::new(f, *h)))).map_or(false, |x| x.is_some()) {
            return fail(&["C03", "C06"], &[], "the object's own lookup takes a channel id of an earlier registration".into());
        }
    }
    for h in others.iter().filter(|h| **h != reg) {
        if b.bind_channel(ChannelId::<T>::new(f, *h), o).is_ok() {
            return fail(&["C06"], &[], "a channel id of another contract was bound".into());
        }
        if guarded(|| b.object(o).ok().and_then(|ob| T::object_channel(ob, ChannelId::<T>::new(f, *h)))).map_or(false, |x| x.is_some()) {
            return fail(&["C06"], &[], "the object's own lookup takes a channel id of another contract".into());
        }
    }
    Ok(())
}

fn err(e: impl std::fmt::Display) -> String {
    format!("{e}")
}

pub fn read_state<T: Prop>(b: &Baseline, h: (usize, u64), path: usize) -> Result<Val, String> {
    let h = sh::<T>(h);
    let d: DynStateHandle = T::dyn_shandle(h);
    Ok(match path {
        0 => b.state(h).map_err(err)?.value.val(),
        1 => b[h].value.val(),
        2 => ref_val(&b.state(d).map_err(err)?.0),
        3 => h.get(b).map_err(err)?.value.val(),
        4 => {
            let s: DynStateRef<'_> = d.get(b).map_err(err)?;
            if !tag_is(s.0.prop_type(), T::TY, T::LIST) || !tag_is(d.prop_type(), T::TY, T::LIST) {
                return Err("the type of a dynamic state is wrong".into());
            }
            ref_val(&s.0)
        }
        _ => {
            let s = b.state(h).map_err(err)?;
            ref_val(&T::dyn_state_ref(s).0)
        }
    })
}

/// Returns the value that was there, where the path shows it.
pub fn write_state<T: Prop>(b: &mut Baseline, h: (usize, u64), v: &Val, path: usize) -> Result<Option<Val>, String> {
    let h = sh::<T>(h);
    let d: DynStateHandle = T::dyn_shandle(h);
    match path {
        0 => b.state_mut(h).map_err(err)?.value = T::from_val(v),
        1 => b[h].value = T::from_val(v),
        2 => {
            let mut s = State::new(T::from_val(v));
            std::mem::swap(h.get_mut(b).map_err(err)?, &mut s);
            return Ok(Some(s.value.val()));
        }
        3 => {
            let s: DynStateMut<'_> = b.state_mut(d).map_err(err)?;
            mut_put(s.0, v)
        }
        4 => {
            let s: DynStateMut<'_> = d.get_mut(b).map_err(err)?;
            let old = mut_val(&s.0);
            mut_put(s.0, v);
            return Ok(Some(old));
        }
        _ => {
            let s = b.state_mut(h).map_err(err)?;
            let old = s.value.val();
            s.value = T::from_val(v);
            return Ok(Some(old));
        }
    }
    Ok(None)
}

pub fn read_chan<T: Prop>(b: &Baseline, h: (usize, u64), path: usize) -> Result<Frames, String> {
    let h = chh::<T>(h);
    let d: DynChannelHandle = T::dyn_chandle(h);
    Ok(match path {
        0 => chan_frames(b.channel(h).map_err(err)?),
        1 => chan_frames(&b[h]),
        2 => chan_frames(h.get(b).map_err(err)?),
        _ => {
            let c = d.get(b).map_err(err)?;
            let (t, l, f) = chan_ref_frames(&c);
            if (t, l) != (T::TY, T::LIST) || !tag_is(d.prop_type(), t, l) || !tag_is(c.prop_type(), t, l) {
                return Err("the type of a dynamic channel is wrong".into());
            }
            f
        }
    })
}
pub fn write_chan<T: Prop>(b: &mut Baseline, h: (usize, u64), f: &Frames, path: usize) -> Result<(), String> {
    let h = chh::<T>(h);
    let d: DynChannelHandle = T::dyn_chandle(h);
    match path {
        0 => *b.channel_mut(h).map_err(err)? = to_chan(f),
        1 => b[h] = to_chan(f),
        2 => *h.get_mut(b).map_err(err)? = to_chan(f),
        3 | 4 => chan_mut_put(d.get_mut(b).map_err(err)?, T::TY, T::LIST, f),
        _ => {
            // in place: only what differs is touched, a keyframe at a time
            let c = &mut b[h];
            let n = c.keyframes().len();
            let same = |k: &Keyframe<T>, (v, t): &(Val, u64)| k.time().to_bits() == *t && k.value().val() == *v;
            let head = (0..n.min(f.len())).take_while(|i| same(&c.keyframes()[*i], &f[*i])).count();
            let tail = (0..(n - head).min(f.len() - head)).take_while(|i| same(&c.keyframes()[n - 1 - *i], &f[f.len() - 1 - *i])).count();
            for _ in f.len() - tail..n - tail {
                c.keyframes_mut().remove(head.max(f.len() - tail));
            }
            for i in head..f.len() - tail {
                let k = Keyframe::new(T::from_val(&f[i].0), f64::from_bits(f[i].1));
                if i < n - tail {
                    c.keyframes_mut()[i] = k;
                } else {
                    c.keyframes_mut().insert(i, k);
                }
            }
        }
    }
    Ok(())
}
