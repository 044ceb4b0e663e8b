//! Scale: hundreds of contracts in one buffer, and more than 65536 objects
//! that refer to each other.
use std::collections::{BTreeMap, HashMap};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::*;
use tp_client::object::ObjectHandle;
use tp_serialize::{Deserializer, DeserializerBuilder, Serializer};
use vcore::rng::Rng;
use vcore::report::guarded as caught;
use vcore::types::ohandle;

const NAMES: [&str; 100] = ["s.00", "s.01", "s.02", "s.03", "s.04", "s.05", "s.06", "s.07", "s.08", "s.09", "s.10", "s.11", "s.12", "s.13", "s.14", "s.15", "s.16", "s.17", "s.18", "s.19", "s.20", "s.21", "s.22", "s.23", "s.24", "s.25", "s.26", "s.27", "s.28", "s.29", "s.30", "s.31", "s.32", "s.33", "s.34", "s.35", "s.36", "s.37", "s.38", "s.39", "s.40", "s.41", "s.42", "s.43", "s.44", "s.45", "s.46", "s.47", "s.48", "s.49", "s.50", "s.51", "s.52", "s.53", "s.54", "s.55", "s.56", "s.57", "s.58", "s.59", "s.60", "s.61", "s.62", "s.63", "s.64", "s.65", "s.66", "s.67", "s.68", "s.69", "s.70", "s.71", "s.72", "s.73", "s.74", "s.75", "s.76", "s.77", "s.78", "s.79", "s.80", "s.81", "s.82", "s.83", "s.84", "s.85", "s.86", "s.87", "s.88", "s.89", "s.90", "s.91", "s.92", "s.93", "s.94", "s.95", "s.96", "s.97", "s.98", "s.99"];
#[states]
#[allow(dead_code)]
pub struct SMany {
    uid: u64,
    to: ObjectHandle,
    of: ContractDataHandle,
}
#[channels]
#[allow(dead_code)]
pub struct ChMany {}
pub struct CMany<const N: u16> {
    h: ContractDataHandle,
    s: SMany,
    c: ChMany,
}
impl<const N: u16> Contract for CMany<N> {
    type States = SMany;
    type Channels = ChMany;
    const ID: ContractId = ContractId {
        name: NAMES[(N % 100) as usize],
        version: [(1, 0, 0), (1, 0, 1), (2, 0, 0)][(N / 100) as usize],
    };
    fn new(h: ContractDataHandle) -> Self {
        Self { h, s: SMany::new(h), c: ChMany::new(h) }
    }
    fn states(&self) -> &SMany {
        &self.s
    }
    fn channels(&self) -> &ChMany {
        &self.c
    }
    fn handle(&self) -> ContractDataHandle {
        self.h
    }
}
fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    caught(f).map_err(|p| format!("panic: {p}"))?
}
type Made = Result<ObjectHandle, String>;
#[derive(Clone, Copy)]
struct One {
    register: fn(&mut Baseline) -> Result<ContractDataHandle, String>,
    ser: fn(&mut Serializer<'_>, ContractDataHandle) -> Result<(), String>,
}
fn one<const N: u16>() -> One {
    One {
        register: |b| b.register_contract::<CMany<N>>().map(|c| c.handle()).map_err(|e| format!("{e}")),
        ser: |s, h| s.serialize(&<CMany<N> as Contract>::new(h)).map_err(|e| format!("{e:#}")),
    }
}
/// All of this is costly to compile, so a few contracts are read, and fewer
/// have objects.
struct Read {
    k: usize,
    reg: fn(&mut DeserializerBuilder<'_>) -> Result<ContractDataHandle, String>,
    de: fn(&mut Deserializer<'_>, ContractDataHandle) -> Result<(), String>,
}
fn read<const N: u16>() -> Read {
    Read {
        k: N as usize,
        reg: |b| b.register_contract::<CMany<N>>().map(|c| c.handle()).map_err(|e| format!("{e:#}")),
        de: |d, h| d.deserialize_objects(&<CMany<N> as Contract>::new(h)).map_err(|e| format!("{e:#}")),
    }
}
fn create<const N: u16>(b: &mut Baseline, h: ContractDataHandle, uid: u64, to: ObjectHandle, of: ContractDataHandle) -> Made {
    let s: Vec<DynTpProperty> = vec![uid.into(), to.into(), of.into()];
    b.object_create(&<CMany<N> as Contract>::new(h), s.into_iter(), std::iter::empty()).map_err(|e| format!("{e}"))
}
macro_rules! all { ($($n:literal),*) => { vec![$(one::<$n>()),*] }; }
fn all() -> Vec<One> {
    all!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263)
}
type Create = fn(&mut Baseline, ContractDataHandle, u64, ObjectHandle, ContractDataHandle) -> Made;
const FULL: [(usize, Create); 4] = [(0, create::<0>), (257, create::<257>), (131, create::<131>), (263, create::<263>)];
fn reads() -> Vec<Read> {
    vec![read::<0>(), read::<257>(), read::<131>(), read::<263>(), read::<17>(), read::<100>(), read::<200>(), read::<90>()]
}

/// For each contract with objects: what each object says, by names that do
/// not depend on handles.
fn seen(b: &Baseline, cs: &HashMap<usize, ContractDataHandle>) -> Result<BTreeMap<(usize, u64), (u64, usize)>, String> {
    let back: HashMap<ContractDataHandle, usize> = cs.iter().map(|(k, h)| (*h, *k)).collect();
    let val = |h: ContractDataHandle, o: ObjectHandle| -> Result<u64, String> {
        let s = b.bind_state(StateId::<u64>::new(0, h), o).map_err(|e| format!("{e}"))?;
        Ok(b[s].value)
    };
    let mut out = BTreeMap::new();
    for (k, h) in cs {
        let cd = b.contract_data(*h).map_err(|e| format!("a contract is not there: {e}"))?;
        for o in cd.objects() {
            let s = b.bind_state(StateId::<ObjectHandle>::new(1, *h), *o).map_err(|e| format!("{e}"))?;
            let to = b[s].value;
            let owner = b.object(to).map_err(|e| format!("a reference points at nothing: {e}"))?.contract();
            let s = b.bind_state(StateId::<ContractDataHandle>::new(2, *h), *o).map_err(|e| format!("{e}"))?;
            let of = *back.get(&b[s].value).ok_or("a reference to a contract points at nothing")?;
            if out.insert((*k, val(*h, *o)?), (val(owner, to)?, of)).is_some() {
                return Err("an object is there twice".into());
            }
        }
    }
    if b.iter_objects().count() != out.len() {
        return Err(format!("{} objects in the baseline, the contracts list {}", b.iter_objects().count(), out.len()));
    }
    Ok(out)
}

/// A round trip of `n` contracts with `per` objects for each of those that have some.
pub fn run(r: &mut Rng, n: usize, per: usize) -> Result<usize, String> {
    let ks = all();
    let rs = reads();
    let mut order: Vec<usize> = (0..ks.len()).filter(|k| rs.iter().all(|f| f.k != *k)).collect();
    r.shuffle(&mut order);
    order.truncate(n - rs.len());
    // those that are read at places past one byte, too
    for (f, at) in rs.iter().zip([0, n / 2, n, n.saturating_sub(30), 1, n - 2, n - 1, n]) {
        order.insert(at.min(order.len()), f.k);
    }
    let mut b = Baseline::new(BaselineKind::Main);
    let mut reg = order.clone();
    r.shuffle(&mut reg);
    let mut cs: HashMap<usize, ContractDataHandle> = HashMap::new();
    for k in &reg {
        cs.insert(*k, (ks[*k].register)(&mut b)?);
    }
    let mut objs: Vec<(usize, ObjectHandle)> = vec![];
    let mut uid = 0;
    let dummy = {
        // any handle will do until the references are set
        let h: ContractDataHandle = cs[&FULL[0].0];
        let o: ObjectHandle = ohandle(0, 0);
        (o, h)
    };
    for _ in 0..per {
        for (k, make) in FULL {
            objs.push((k, make(&mut b, cs[&k], uid, dummy.0, dummy.1)?));
            uid += 1;
        }
    }
    for i in 0..objs.len() {
        let (k, o) = objs[i];
        let to = match i % 4 {
            0 => objs[objs.len() - 1 - i].1,
            1 => objs[(i + 1) % objs.len()].1,
            _ => objs[r.below(objs.len())].1,
        };
        let s = b.bind_state(StateId::<ObjectHandle>::new(1, cs[&k]), o).map_err(|e| format!("{e}"))?;
        b[s].value = to;
        let s = b.bind_state(StateId::<ContractDataHandle>::new(2, cs[&k]), o).map_err(|e| format!("{e}"))?;
        b[s].value = cs[&rs[r.below(rs.len())].k];
    }
    let want = seen(&b, &cs)?;
    let bytes = guarded(|| {
        let mut s = Serializer::new(flatbuffers::FlatBufferBuilder::new(), &b);
        for k in &order {
            (ks[*k].ser)(&mut s, cs[k])?;
        }
        Ok(s.finish().finished_data().to_vec())
    })
    .map_err(|e| format!("{n} contracts and {} objects cannot be serialised: {e}", objs.len()))?;
    if seen(&b, &cs)? != want {
        return Err("serialising changed the source".into());
    }
    let (mut reg, mut de) = (reads(), reads());
    r.shuffle(&mut reg);
    r.shuffle(&mut de);
    let (b2, cs2) = guarded(|| {
        let mut d = DeserializerBuilder::new(&bytes, BaselineKind::Fork).map_err(|e| format!("{e:#}"))?;
        let mut cs = HashMap::new();
        for k in &reg {
            cs.insert(k.k, (k.reg)(&mut d)?);
        }
        let mut d = d.finish();
        for k in &de {
            (k.de)(&mut d, cs[&k.k])?;
        }
        Ok((d.finish().map_err(|e| format!("{e:#}"))?, cs))
    })
    .map_err(|e| format!("{n} contracts and {} objects cannot be read back: {e}", objs.len()))?;
    let got = seen(&b2, &cs2)?;
    if got != want {
        let diff = want.iter().find(|(k, v)| got.get(k) != Some(v));
        return Err(format!("{n} contracts and {} objects come back changed: {diff:?} reads {:?}", objs.len(), diff.and_then(|d| got.get(d.0))));
    }
    Ok(want.len())
}
