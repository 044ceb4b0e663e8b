//! Contracts and helpers shared by the monitors of the serialiser.
#![allow(clippy::all)]
use std::collections::HashMap;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::states::StateId;
use tp_client::contract::*;
use tp_client::object::ObjectHandle;
use tp_serialize::{Deserializer, DeserializerBuilder, Serializer};
use vcore::dispatch;
use vcore::rng::Rng;
use vcore::types::*;
use vcore::world::*;

use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::states::*;

vcore::contract!(KAll, SKAll { a0: u8, a1: u16, a2: u32, a3: u64, a4: i8, a5: i16, a6: i32, a7: i64, a8: bool, a9: f32, a10: f64, a11: String, a12: ObjectHandle, a13: ContractDataHandle }, ChKAll {}, "ser.all", (1, 2, 3));
vcore::contract!(KNode, SKNode { uid: u64, next: ObjectHandle, prev: ObjectHandle, kind: ContractDataHandle, name: String }, ChKNode {}, "ser.node", (0, 1, 0));
vcore::contract!(KNone, SKNone {}, ChKNone {}, "ser.none", (0, 0, 0));
vcore::contract!(KNums, SKNums { a: u32, b: u32, c: f32, d: f64, e: i64, f: u32, g: i32 }, ChKNums {}, "ser.nums", (65535, 0, 1));
// the same name, another version and other fields
vcore::contract!(KNums2, SKNums2 { a: u64, b: u32, c: f32 }, ChKNums2 {}, "ser.nums", (65535, 0, 2));
// the same fields, another name
vcore::contract!(KNums3, SKNums3 { a: u64, b: u32, c: f32 }, ChKNums3 {}, "ser.nums3", (65535, 0, 2));
vcore::contract!(KBits, SKBits { a: bool, b: bool, c: i8, d: u16 }, ChKBits {}, "ser bits \u{2713}", (0, 65535, 65535));
vcore::contract!(KRef, SKRef { to: ObjectHandle }, ChKRef {}, "ser.ref", (1, 0, 0));
vcore::contract!(KMeta, SKMeta { of: ContractDataHandle, s: String, t: String }, ChKMeta {}, "", (1, 0, 0));

// twins that differ from one of the above in one thing only
vcore::contract!(TwinName, STwinName { a: u64, b: u32, d: f32 }, ChTwinName {}, "ser.nums3", (65535, 0, 2));
vcore::contract!(TwinType, STwinType { a: u64, b: u32, c: f64 }, ChTwinType {}, "ser.nums3", (65535, 0, 2));
vcore::contract!(TwinSwap, STwinSwap { b: u32, a: u64, c: f32 }, ChTwinSwap {}, "ser.nums3", (65535, 0, 2));
vcore::contract!(TwinLess, STwinLess { a: u64, b: u32 }, ChTwinLess {}, "ser.nums3", (65535, 0, 2));
vcore::contract!(TwinMore, STwinMore { a: u64, b: u32, c: f32, d: u8 }, ChTwinMore {}, "ser.nums3", (65535, 0, 2));
vcore::contract!(TwinMajor, STwinMajor { a: u64, b: u32, c: f32 }, ChTwinMajor {}, "ser.nums3", (65534, 0, 2));
vcore::contract!(TwinMinor, STwinMinor { a: u64, b: u32, c: f32 }, ChTwinMinor {}, "ser.nums3", (65535, 1, 2));
vcore::contract!(TwinPatch, STwinPatch { a: u64, b: u32, c: f32 }, ChTwinPatch {}, "ser.nums3", (65535, 0, 3));
vcore::contract!(TwinCase, STwinCase { a: u64, b: u32, c: f32 }, ChTwinCase {}, "Ser.nums3", (65535, 0, 2));

// what the format cannot hold
vcore::contract!(KVec, SKVec { a: u8, b: Vec<u8> }, ChKVec {}, "ser.vec", (1, 0, 0));
vcore::contract!(KChan, SKChan { a: u8 }, ChKChan { x: u8 }, "ser.chan", (1, 0, 0));

pub struct SerKind {
    pub k: Kind,
    pub fields: Vec<&'static str>,
    pub ser: fn(&mut Serializer<'_>, ContractDataHandle) -> Result<(), String>,
    pub reg: fn(&mut DeserializerBuilder<'_>) -> Result<ContractDataHandle, String>,
    pub de: fn(&mut Deserializer<'_>, ContractDataHandle) -> Result<(), String>,
}
fn kind<C: Contract + 'static>(k: Kind) -> SerKind
where
    C::States: IStates,
{
    SerKind {
        k,
        fields: C::States::field_names().iter().copied().collect(),
        ser: |s, h| s.serialize(&C::new(h)).map_err(|e| format!("{e:#}")),
        reg: |b| b.register_contract::<C>().map(|c| c.handle()).map_err(|e| format!("{e:#}")),
        de: |d, h| d.deserialize_objects(&C::new(h)).map_err(|e| format!("{e:#}")),
    }
}
/// The contracts that histories use.
pub const MAIN: usize = 9;
/// The index of the contract that the twins differ from.
pub const TWINNED: usize = 5;
pub const VEC: usize = 18;
pub const CHAN: usize = 19;
pub fn kinds() -> Vec<SerKind> {
    vec![
        kind::<KAll>(KAll::kind()),
        kind::<KNode>(KNode::kind()),
        kind::<KNone>(KNone::kind()),
        kind::<KNums>(KNums::kind()),
        kind::<KNums2>(KNums2::kind()),
        kind::<KNums3>(KNums3::kind()),
        kind::<KBits>(KBits::kind()),
        kind::<KRef>(KRef::kind()),
        kind::<KMeta>(KMeta::kind()),
        kind::<TwinName>(TwinName::kind()),
        kind::<TwinType>(TwinType::kind()),
        kind::<TwinSwap>(TwinSwap::kind()),
        kind::<TwinLess>(TwinLess::kind()),
        kind::<TwinMore>(TwinMore::kind()),
        kind::<TwinMajor>(TwinMajor::kind()),
        kind::<TwinMinor>(TwinMinor::kind()),
        kind::<TwinPatch>(TwinPatch::kind()),
        kind::<TwinCase>(TwinCase::kind()),
        kind::<KVec>(KVec::kind()),
        kind::<KChan>(KChan::kind()),
    ]
}

/// What one baseline holds: for each contract its objects, by handle.
#[derive(Clone, Debug, PartialEq)]
pub struct Picture {
    /// (kind, handle)
    pub contracts: Vec<(usize, (usize, u64))>,
    /// (kind, handle, values)
    pub objects: Vec<(usize, (usize, u64), Vec<Cell>)>,
}

pub fn bound<T: Prop>(b: &Baseline, f: usize, c: ContractDataHandle, o: ObjectHandle) -> Result<(usize, u64), String> {
    b.bind_state(StateId::<T>::new(f, c), o).map(raw).map_err(|e| format!("field {f} cannot be bound: {e}"))
}
pub fn read(b: &Baseline, ty: usize, f: usize, c: ContractDataHandle, o: ObjectHandle) -> Result<Cell, String> {
    let v = dispatch!(ty, false, T => { let h = bound::<T>(b, f, c, o)?; read_state::<T>(b, h, f % 6) })?;
    Ok(v.cells[0].clone())
}
pub fn write(b: &mut Baseline, ty: usize, f: usize, c: ContractDataHandle, o: ObjectHandle, v: Cell) -> Result<(), String> {
    let v = Val { ty, list: false, cells: vec![v] };
    dispatch!(ty, false, T => { let h = bound::<T>(b, f, c, o)?; write_state::<T>(b, h, &v, f % 6) })?;
    Ok(())
}

/// Everything that can be read from `b` about the contracts given.
pub fn picture(b: &Baseline, ks: &[SerKind], cs: &[(usize, ContractDataHandle)]) -> Result<Picture, String> {
    let mut p = Picture { contracts: vec![], objects: vec![] };
    for (k, h) in cs {
        let cd = b.contract_data(*h).map_err(|e| format!("contract {} is not in the baseline: {e}", ks[*k].k.name))?;
        if (cd.id().name, cd.id().version) != (ks[*k].k.id.name, ks[*k].k.id.version) {
            return Err(format!("contract {} has another id", ks[*k].k.name));
        }
        p.contracts.push((*k, raw(*h)));
        for o in cd.objects() {
            let ob = b.object(*o).map_err(|e| format!("a contract lists an object that does not exist: {e}"))?;
            if ob.contract() != *h {
                return Err("an object is listed by a contract it does not belong to".into());
            }
            let mut vals = vec![];
            for (f, (ty, list)) in ks[*k].k.states.iter().enumerate() {
                if *list {
                    vals.push(Cell::Bits(0));
                } else {
                    vals.push(read(b, *ty, f, *h, *o)?);
                }
            }
            p.objects.push((*k, raw(*o), vals));
        }
    }
    let listed = p.objects.len();
    let all = b.iter_objects().count();
    if listed > all {
        return Err(format!("the contracts list {listed} objects, the baseline holds {all}"));
    }
    p.objects.sort_by_key(|o| (o.0, o.1));
    Ok(p)
}

fn mix(h: u64, x: impl std::hash::Hash) -> u64 {
    vcore::report::h64((h, x))
}

impl Picture {
    /// The first reference that points at nothing in the picture.
    pub fn dangling(&self, ks: &[SerKind]) -> Option<String> {
        let objects: std::collections::HashSet<_> = self.objects.iter().map(|o| o.1).collect();
        for (k, o, vals) in &self.objects {
            for (f, c) in vals.iter().enumerate() {
                let Cell::Handle(i, g) = c else { continue };
                let ok = match ks[*k].k.states[f].0 {
                    12 => objects.contains(&(*i, *g)),
                    _ => self.contracts.iter().any(|x| x.1 == (*i, *g)),
                };
                if !ok {
                    return Some(format!("field {f} of object {o:?} of {} points at nothing", ks[*k].k.name));
                }
            }
        }
        None
    }
    /// What is the same in two pictures that differ only in their handles:
    /// for each contract, the colours of its objects after refinement by what
    /// they refer to.
    pub fn shape(&self, ks: &[SerKind]) -> Vec<(usize, Vec<u64>)> {
        let pos: HashMap<(usize, u64), usize> = self.objects.iter().enumerate().map(|(i, o)| (o.1, i)).collect();
        let cpos: HashMap<(usize, u64), usize> = self.contracts.iter().map(|c| (c.1, c.0)).collect();
        let start = |k: usize, vals: &[Cell]| {
            let mut h = mix(7, k);
            for (f, c) in vals.iter().enumerate() {
                h = match (ks[k].k.states[f].0, c) {
                    (12, _) => mix(h, "object"),
                    (13, Cell::Handle(i, g)) => mix(h, ("contract", cpos.get(&(*i, *g)))),
                    // a zero that is left out of a buffer comes back positive
                    (9, Cell::Bits(b)) if *b == 0x8000_0000 => mix(h, &Cell::Bits(0)),
                    (10, Cell::Bits(b)) if *b == 1 << 63 => mix(h, &Cell::Bits(0)),
                    (_, c) => mix(h, c),
                };
            }
            h
        };
        let mut colour: Vec<u64> = self.objects.iter().map(|(k, _, v)| start(*k, v)).collect();
        let mut classes = 0;
        loop {
            let next: Vec<u64> = self
                .objects
                .iter()
                .enumerate()
                .map(|(i, (k, _, vals))| {
                    let mut h = colour[i];
                    for (f, c) in vals.iter().enumerate() {
                        if ks[*k].k.states[f].0 == 12 {
                            let Cell::Handle(a, g) = c else { unreachable!() };
                            let to = pos.get(&(*a, *g));
                            h = mix(h, (to.map(|t| colour[*t]), to == Some(&i)));
                        }
                    }
                    h
                })
                .collect();
            colour = next;
            let n = colour.iter().collect::<std::collections::HashSet<_>>().len();
            if n <= classes {
                break;
            }
            classes = n;
        }
        // (one more object that refers to the same counterpart has the same
        // colour: the sizes of the classes are compared, too)
        let mut out: Vec<(usize, Vec<u64>)> = self
            .contracts
            .iter()
            .map(|(k, _)| {
                let mut v: Vec<u64> = self.objects.iter().zip(&colour).filter(|(o, _)| o.0 == *k).map(|(_, c)| *c).collect();
                v.sort();
                (*k, v)
            })
            .collect();
        out.sort();
        out
    }
}

/// A baseline with random contracts and objects, some of them gone again.
/// References stay within `closed` for objects of those contracts.
pub struct Source {
    pub b: Baseline,
    pub cs: Vec<(usize, ContractDataHandle)>,
    pub objs: Vec<(usize, ContractDataHandle, ObjectHandle)>,
}

pub fn kind_of(r: &mut Rng) -> BaselineKind {
    if r.chance(1, 2) {
        BaselineKind::Main
    } else {
        BaselineKind::Fork
    }
}

pub fn source(r: &mut Rng, ks: &[SerKind], within: &[usize], size: usize) -> Source {
    let mut b = Baseline::new(kind_of(r));
    // churn, so that handles have generations and gaps
    let mut order: Vec<usize> = (0..MAIN).collect();
    r.shuffle(&mut order);
    for k in order.iter().take(r.below(4)) {
        let c = (ks[*k].k.register)(&mut b).unwrap();
        (ks[*k].k.unregister)(&mut b, c.handle()).unwrap();
    }
    r.shuffle(&mut order);
    let mut cs: Vec<(usize, Box<dyn Reg>)> = vec![];
    for k in order {
        if within.contains(&k) || r.chance(1, 2) {
            cs.push((k, (ks[k].k.register)(&mut b).unwrap()));
        }
    }
    let mut objs: Vec<(usize, ContractDataHandle, ObjectHandle)> = vec![];
    if !cs.is_empty() {
        let n = if size > 5000 { size } else { r.below(size + 1) };
        let uid = r.next();
        for i in 0..n {
            let (k, c) = &cs[r.below(cs.len())];
            let vals: Vec<Val> = ks[*k].k.states.iter().enumerate().map(|(f, (ty, _))| {
                let mut v = gen_val(*ty, false, r);
                if *ty == 3 && f == 0 && r.chance(3, 4) {
                    v.cells[0] = Cell::Bits(uid.wrapping_add(i as u64));
                }
                v
            }).collect();
            let s: Vec<_> = vals.iter().map(to_dyn).collect();
            let o = c.create(&mut b, Box::new(s.into_iter()), Box::new(std::iter::empty())).unwrap();
            objs.push((*k, c.handle(), o));
            if r.chance(1, 5) {
                let (k, _, o) = objs.swap_remove(r.below(objs.len()));
                (ks[k].k.remove)(&mut b, o).unwrap();
            }
        }
    }
    let mut s = Source { b, cs: cs.iter().map(|(k, c)| (*k, c.handle())).collect(), objs };
    s.link(r, ks, within);
    s
}

impl Source {
    /// Points every reference of the objects of contracts `within` at
    /// something of those contracts, and the others anywhere.
    pub fn link(&mut self, r: &mut Rng, ks: &[SerKind], within: &[usize]) {
        let objs = self.objs.clone();
        let inside: Vec<usize> = (0..objs.len()).filter(|i| within.contains(&objs[*i].0)).collect();
        let cin: Vec<usize> = (0..self.cs.len()).filter(|i| within.contains(&self.cs[*i].0)).collect();
        let local = r.chance(1, 3);
        for (i, (k, c, o)) in objs.iter().enumerate() {
            let closed = within.contains(k);
            for (f, (ty, _)) in ks[*k].k.states.iter().enumerate() {
                let to = match ty {
                    12 if closed => {
                        // chains, rings, self references, and any shape
                        let at = inside.iter().position(|x| *x == i).unwrap();
                        let j = match r.below(6) {
                            0 => at,
                            1 => (at + 1) % inside.len(),
                            2 => (at + inside.len() - 1) % inside.len(),
                            3 if local => 0,
                            _ => r.below(inside.len()),
                        };
                        Some(raw(objs[inside[j]].2))
                    }
                    12 => (r.chance(2, 3)).then(|| raw(objs[r.below(objs.len())].2)),
                    13 if closed => Some(raw(self.cs[cin[r.below(cin.len())]].1)),
                    13 => (r.chance(2, 3)).then(|| raw(self.cs[r.below(self.cs.len())].1)),
                    _ => None,
                };
                if let Some((x, g)) = to {
                    write(&mut self.b, *ty, f, *c, *o, Cell::Handle(x, g)).unwrap();
                }
            }
        }
    }
}

/// Serialises the contracts in the order given.
pub fn serialise(b: &Baseline, ks: &[SerKind], cs: &[(usize, ContractDataHandle)], used: bool) -> Result<Vec<u8>, String> {
    let mut fbb = flatbuffers::FlatBufferBuilder::new();
    if used {
        // a builder that has been used before
        fbb.create_string("left over");
        if cs.len() % 2 == 0 {
            let s = fbb.create_string("finished");
            fbb.finish(s, None);
        }
    }
    let mut s = Serializer::new(fbb, b);
    for (k, h) in cs {
        (ks[*k].ser)(&mut s, *h)?;
    }
    Ok(s.finish().finished_data().to_vec())
}

/// Reads contracts in the order of `regs`, their objects in that of `des`
/// (positions in `regs`).
pub fn deserialise(data: &[u8], ks: &[SerKind], kind: BaselineKind, regs: &[usize], des: &[usize]) -> Result<(Baseline, Vec<(usize, ContractDataHandle)>), String> {
    let mut d = DeserializerBuilder::new(data, kind).map_err(|e| format!("{e:#}"))?;
    let mut cs = vec![];
    for k in regs {
        cs.push((*k, (ks[*k].reg)(&mut d)?));
    }
    let mut d = d.finish();
    for i in des {
        (ks[cs[*i].0].de)(&mut d, cs[*i].1)?;
    }
    let b = d.finish().map_err(|e| format!("{e:#}"))?;
    Ok((b, cs))
}
