//! Scale: scenarios past the sizes random histories reach. Hundreds of
//! contracts, more than 65536 objects and generations, very long values.
use crate::report::{guarded, Report};
use crate::rng::Rng;
use crate::types::*;
use crate::world::*;
use std::collections::HashSet;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::*;
use tp_client::object::ObjectHandle;

type Res = Result<(), Fail>;
macro_rules! want {
    ($props:expr, $c:expr, $($f:tt)*) => {
        if !$c {
            return Err(Fail { props: $props.to_vec(), msg: format!($($f)*) });
        }
    };
}
macro_rules! get {
    ($props:expr, $r:expr, $($f:tt)*) => {
        match guarded(|| $r) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return Err(Fail { props: $props.to_vec(), msg: format!("{}: {e}", format!($($f)*)) }),
            Err(p) => return Err(Fail { props: $props.to_vec(), msg: format!("{}: panic: {p}", format!($($f)*)) }),
        }
    };
}

// ---- many contracts: the same fields under many identities
const NAMES: [&str; 100] = ["m.00", "m.01", "m.02", "m.03", "m.04", "m.05", "m.06", "m.07", "m.08", "m.09", "m.10", "m.11", "m.12", "m.13", "m.14", "m.15", "m.16", "m.17", "m.18", "m.19", "m.20", "m.21", "m.22", "m.23", "m.24", "m.25", "m.26", "m.27", "m.28", "m.29", "m.30", "m.31", "m.32", "m.33", "m.34", "m.35", "m.36", "m.37", "m.38", "m.39", "m.40", "m.41", "m.42", "m.43", "m.44", "m.45", "m.46", "m.47", "m.48", "m.49", "m.50", "m.51", "m.52", "m.53", "m.54", "m.55", "m.56", "m.57", "m.58", "m.59", "m.60", "m.61", "m.62", "m.63", "m.64", "m.65", "m.66", "m.67", "m.68", "m.69", "m.70", "m.71", "m.72", "m.73", "m.74", "m.75", "m.76", "m.77", "m.78", "m.79", "m.80", "m.81", "m.82", "m.83", "m.84", "m.85", "m.86", "m.87", "m.88", "m.89", "m.90", "m.91", "m.92", "m.93", "m.94", "m.95", "m.96", "m.97", "m.98", "m.99"];
/// Names and versions that are taken for one another when they are packed,
/// joined, trimmed or compared in part.
const ALIKE: [&str; 5] = ["m.00", "M.00", "m.00 ", "m.0", ""];
const VERSIONS: [(u16, u16, u16); 40] = [
    (1, 0, 1), (2, 0, 0), (0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (1, 1, 0), (1, 1, 1), (1, 0, 256), (0, 256, 0),
    (256, 0, 0), (0, 0, 256), (1, 0, 257), (1, 256, 0), (257, 0, 0), (1, 1, 256), (0, 65535, 65535), (65535, 65535, 65535), (65535, 0, 0), (0, 65535, 0),
    (0, 0, 65535), (1, 11, 1), (11, 1, 1), (1, 1, 11), (0, 1, 10), (0, 10, 1), (1, 0, 10), (10, 0, 1), (1, 2, 3), (3, 2, 1),
    (2, 1, 3), (1, 3, 2), (0, 0, 32768), (32768, 0, 0), (0, 32768, 0), (1, 0, 65535), (1, 65535, 0), (0, 1, 65535), (1, 0, 1000), (1, 1000, 0),
];
#[states]
#[allow(dead_code)]
pub struct SMany {
    a: u16,
    b: String,
}
#[channels]
#[allow(dead_code)]
pub struct ChMany {
    c: u8,
}
pub struct CMany<const N: u16> {
    h: ContractDataHandle,
    s: SMany,
    c: ChMany,
}
impl<const N: u16> Contract for CMany<N> {
    type States = SMany;
    type Channels = ChMany;
    const ID: ContractId = ContractId {
        name: if N < 100 { NAMES[N as usize] } else { ALIKE[((N - 100) / 40) as usize] },
        version: if N < 100 { (1, 0, 0) } else { VERSIONS[((N - 100) % 40) as usize] },
    };
    fn new(h: ContractDataHandle) -> Self {
        Self { h, s: SMany::new(h), c: ChMany::new(h) }
    }
    fn states(&self) -> &SMany {
        &self.s
    }
    fn channels(&self) -> &ChMany {
        &self.c
    }
    fn handle(&self) -> ContractDataHandle {
        self.h
    }
}
/// The identity of `CMany<0>`, written elsewhere.
const LONGER: &[u8] = b"m.00 and more";
const TWIN: &str = match LONGER {
    [name @ .., _, _, _, _, _, _, _, _, _] => match std::str::from_utf8(name) {
        Ok(s) => s,
        Err(_) => "",
    },
    _ => "",
};
pub struct CTwin(CMany<0>);
impl Contract for CTwin {
    type States = SMany;
    type Channels = ChMany;
    const ID: ContractId = ContractId { name: TWIN, version: (1, 0, 0) };
    fn new(h: ContractDataHandle) -> Self {
        Self(CMany::new(h))
    }
    fn states(&self) -> &SMany {
        self.0.states()
    }
    fn channels(&self) -> &ChMany {
        self.0.channels()
    }
    fn handle(&self) -> ContractDataHandle {
        self.0.handle()
    }
}

struct Many {
    register: fn(&mut Baseline) -> Result<ContractDataHandle, String>,
    id: ContractId,
}
/// Removal and creation are costly to compile, so a few have them.
struct Full {
    k: usize,
    unregister: fn(&mut Baseline, ContractDataHandle) -> Result<(), String>,
    remove: fn(&mut Baseline, ObjectHandle) -> Result<(), String>,
    value: fn(ContractDataHandle) -> Box<dyn Reg>,
}
impl<const N: u16> CMany<N> {
    fn many() -> Many {
        Many {
            register: |b| b.register_contract::<Self>().map(|c| c.handle()).map_err(|e| format!("{e}")),
            id: <Self as Contract>::ID,
        }
    }
    fn full() -> Full {
        Full {
            k: N as usize,
            unregister: |b, h| b.unregister_contract::<Self>(h).map_err(|e| format!("{e}")),
            remove: |b, o| b.object_remove::<Self>(o).map_err(|e| format!("{e}")),
            value: |h| Box::new(R(<Self as Contract>::new(h))),
        }
    }
}
macro_rules! all_many { ($($n:literal),*) => { vec![$(CMany::<$n>::many()),*] }; }
macro_rules! all_full { ($($n:literal),*) => { vec![$(CMany::<$n>::full()),*] }; }

fn make(b: &mut Baseline, reg: &dyn Reg, n: u16) -> Result<ObjectHandle, String> {
    let s: Vec<DynTpProperty> = vec![n.into(), format!("text {n}").into()];
    let c = vec![u8::dyn_chan(Channel::new(vec![Keyframe::new(n as u8, n as f64)].into_iter()))];
    reg.create(b, Box::new(s.into_iter()), Box::new(c.into_iter()))
}
fn reads(b: &Baseline, ch: ContractDataHandle, o: ObjectHandle, n: u16) -> Result<(), String> {
    let h = b.bind_state(StateId::<u16>::new(0, ch), o).map_err(|e| format!("{e}"))?;
    let v = b.state(h).map_err(|e| format!("{e}"))?.value;
    if v != n {
        return Err(format!("field a is {v}, not {n}"));
    }
    let h = b.bind_state(StateId::<String>::new(1, ch), o).map_err(|e| format!("{e}"))?;
    let v = &b.state(h).map_err(|e| format!("{e}"))?.value;
    if *v != format!("text {n}") {
        return Err(format!("field b is {v}, not that of {n}"));
    }
    let h = b.bind_channel(ChannelId::<u8>::new(0, ch), o).map_err(|e| format!("{e}"))?;
    let c = b.channel(h).map_err(|e| format!("{e}"))?;
    if c.keyframes().len() != 1 || *c.keyframes()[0].value() != n as u8 {
        return Err(format!("channel c is not that of {n}"));
    }
    Ok(())
}

fn many_contracts(r: &mut Rng) -> Res {
    let ks: Vec<Many> = all_many!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299);
    let fs: Vec<Full> = all_full!(0, 108, 112, 7, 107, 31, 255, 299);
    let (n, nf) = (ks.len(), fs.len());
    let mut b = Baseline::new(BaselineKind::Fork);
    // the ones with objects spread over the order of registration
    let mut rest: Vec<usize> = (0..n).filter(|k| fs.iter().all(|f| f.k != *k)).collect();
    r.shuffle(&mut rest);
    let mut order = rest;
    for (f, at) in fs.iter().zip([0usize, 1, 9, 33, 129, 255, 257, 299]) {
        order.insert(at.min(order.len()), f.k);
    }
    let mut regs: Vec<ContractDataHandle> = vec![chandle(usize::MAX >> 1, 0); n];
    let mut handles = HashSet::new();
    for (i, k) in order.iter().enumerate() {
        let h = get!(["C03"], (ks[*k].register)(&mut b), "contract number {i} cannot be registered");
        want!(["C03", "C06"], handles.insert(raw(h)), "two registrations share a handle");
        regs[*k] = h;
    }
    for k in 0..n {
        want!(["C03"], matches!(guarded(|| (ks[k].register)(&mut b).is_err()), Ok(true)), "a contract was registered twice among {n} contracts");
    }
    want!(["C03"], matches!(guarded(|| b.register_contract::<CTwin>().is_err()), Ok(true)), "a contract was registered twice, the name from another place");
    let twin = get!(["C03"], b.unregister_contract::<CTwin>(regs[0]).and_then(|_| b.register_contract::<CTwin>()), "a contract known by its name from another place");
    want!(["C03"], matches!(guarded(|| (ks[0].register)(&mut b).is_err()), Ok(true)), "a contract was registered twice, the name from another place");
    want!(["C03", "C06"], handles.insert(raw(twin.handle())), "two registrations share a handle");
    regs[0] = twin.handle();
    let mut objs: Vec<Vec<ObjectHandle>> = vec![vec![]; n];
    for j in 0..3 {
        for f in &fs {
            let o = get!(["C04"], make(&mut b, (f.value)(regs[f.k]).as_ref(), (f.k * 3 + j) as u16), "creating an object of one of {n} contracts");
            objs[f.k].push(o);
        }
    }
    let all: HashSet<_> = objs.iter().flatten().map(|o| raw(*o)).collect();
    want!(["C02", "C06"], all.len() == 3 * nf, "objects share a handle");
    let audit = |b: &Baseline, gone: &[usize], regs: &[ContractDataHandle], objs: &[Vec<ObjectHandle>], by: &[&'static str]| -> Res {
        let mut total = 0;
        for k in 0..n {
            let d = b.contract_data(regs[k]);
            if gone.contains(&k) {
                want!(["C03"], d.is_err(), "a contract is still there after it was unregistered");
                continue;
            }
            let d = get!(by, d, "contract data of a live contract");
            want!(by, (d.id().name, d.id().version) == (ks[k].id.name, ks[k].id.version), "a contract shows another identity");
            let got: HashSet<_> = d.objects().iter().map(|o| raw(*o)).collect();
            want!(by, got == objs[k].iter().map(|o| raw(*o)).collect::<HashSet<_>>(), "a contract lists other objects than it has");
            for (j, o) in objs[k].iter().enumerate() {
                total += 1;
                let by5: Vec<&'static str> = by.iter().copied().chain(["C05", "C06"]).collect();
                get!(by5, reads(b, regs[k], *o, (k * 3 + j) as u16), "reading an object of one of many contracts");
            }
        }
        let seen: HashSet<_> = b.iter_objects().map(|(h, _)| raw(h)).collect();
        want!(by, seen.len() == total && b.iter_objects().count() == total, "{} objects enumerated, {total} alive", seen.len());
        Ok(())
    };
    audit(&b, &[], &regs, &objs, &["C02", "C03"])?;
    for f in &fs {
        // ids of the others
        for j in (0..n).filter(|j| *j != f.k) {
            let o = objs[f.k][0];
            want!(["C06"], b.bind_state(StateId::<u16>::new(0, regs[j]), o).is_err() && b.bind_channel(ChannelId::<u8>::new(0, regs[j]), o).is_err(), "a field id of another contract was bound (contracts {} and {j})", f.k);
        }
        for j in (0..n).filter(|j| *j != f.k) {
            want!(["C03"], matches!(guarded(|| (f.unregister)(&mut b, regs[j]).is_err()), Ok(true)), "contract {j} was unregistered as contract {}", f.k);
            for o in &objs[j] {
                want!(["C02"], matches!(guarded(|| (f.remove)(&mut b, *o).is_err()), Ok(true)), "an object was removed as one of another contract");
            }
            if j % 5 == 0 {
                let bad = guarded(|| make(&mut b, (f.value)(regs[j]).as_ref(), 1).is_err());
                want!(["C04"], matches!(bad, Ok(true)), "an object was created with the handle of another contract");
            }
        }
    }
    audit(&b, &[], &regs, &objs, &["C02", "C03", "C04"])?;
    let mut gone: Vec<usize> = vec![];
    let mut stale: Vec<(usize, ContractDataHandle)> = vec![];
    for f in fs.iter().filter(|f| f.k % 2 == 1) {
        get!(["C03"], (f.unregister)(&mut b, regs[f.k]), "unregistering one of {n} contracts");
        gone.push(f.k);
        stale.push((f.k, regs[f.k]));
        for o in &objs[f.k] {
            want!(["C02", "C03"], b.object(*o).is_err(), "an object survived its contract");
        }
        audit(&b, &gone, &regs, &objs, &["C02", "C03"])?;
    }
    for k in 0..n {
        if !gone.contains(&k) {
            want!(["C03"], matches!(guarded(|| (ks[k].register)(&mut b).is_err()), Ok(true)), "a contract was registered twice among {n} contracts");
        }
    }
    for f in fs.iter().rev().filter(|f| f.k % 2 == 1) {
        let old = objs[f.k].clone();
        regs[f.k] = get!(["C03"], (ks[f.k].register)(&mut b), "a contract cannot be registered again");
        want!(["C03", "C06"], handles.insert(raw(regs[f.k])), "a new registration has the handle of an earlier one");
        objs[f.k].clear();
        for j in 0..3 {
            let o = get!(["C04", "C03"], make(&mut b, (f.value)(regs[f.k]).as_ref(), (f.k * 3 + j) as u16), "creating an object after registering again");
            want!(["C02", "C06"], !old.contains(&o), "a new object has the handle of an old one");
            objs[f.k].push(o);
        }
        for o in old {
            want!(["C02", "C03"], b.object(o).is_err(), "an object of the earlier registration is back");
        }
    }
    for (k, h) in &stale {
        want!(["C03"], b.contract_data(*h).is_err(), "a stale contract handle is accepted");
        for f in &fs {
            want!(["C03"], matches!(guarded(|| (f.unregister)(&mut b, *h).is_err()), Ok(true)), "a stale handle unregistered a contract");
            for o in &objs[f.k] {
                want!(["C03", "C06"], b.bind_state(StateId::<u16>::new(0, *h), *o).is_err() && b.bind_channel(ChannelId::<u8>::new(0, *h), *o).is_err(), "a field id of the earlier registration was bound");
            }
        }
        want!(["C03"], matches!(guarded(|| (ks[*k].register)(&mut b).is_err()), Ok(true)), "a contract was registered twice");
    }
    audit(&b, &[], &regs, &objs, &["C02", "C03"])
}

// ---- many objects, many generations
crate::contract!(CTiny, STiny { n: u32 }, ChTiny { c: u8 }, "verif.tiny", (1, 0, 0));
crate::contract!(COther, SOther { n: u32 }, ChOther { c: u8 }, "verif.other", (1, 0, 0));

fn tiny<C: Contract>(b: &mut Baseline, c: &C, n: u32) -> Result<ObjectHandle, String> {
    let s: Vec<DynTpProperty> = vec![n.into()];
    let ch = vec![u8::dyn_chan(Channel::new(vec![Keyframe::new(n as u8, 0.0)].into_iter()))];
    b.object_create(c, s.into_iter(), ch.into_iter()).map_err(|e| format!("{e}"))
}

fn many_objects(count: usize, r: &mut Rng) -> Res {
    let mut b = Baseline::new(BaselineKind::Main);
    let c = get!(["C03"], b.register_contract::<CTiny>(), "register");
    let d = get!(["C03"], b.register_contract::<COther>(), "register");
    let (sid, cid) = (StateId::<u32>::new(0, c.handle()), ChannelId::<u8>::new(0, c.handle()));
    let sid2 = StateId::<u32>::new(0, d.handle());
    let mut objs: Vec<(ObjectHandle, u32, StateHandle<u32>, ChannelHandle<u8>)> = vec![];
    let mut others = vec![];
    for i in 0..count as u32 {
        let o = get!(["C04"], tiny(&mut b, &c, i), "object {i} cannot be created");
        let sh = get!(["C06"], b.bind_state(sid, o), "binding object {i}");
        let chh = get!(["C06"], b.bind_channel(cid, o), "binding object {i}");
        objs.push((o, i, sh, chh));
        if i % 997 == 0 {
            let o = get!(["C04"], tiny(&mut b, &d, i), "object {i} cannot be created");
            others.push((o, i));
        }
    }
    let mut set: HashSet<_> = objs.iter().map(|o| raw(o.0)).collect();
    set.extend(others.iter().map(|o| raw(o.0)));
    want!(["C02", "C06"], set.len() == objs.len() + others.len(), "two of {} objects share a handle", objs.len());
    let audit = |b: &Baseline, objs: &[(ObjectHandle, u32, StateHandle<u32>, ChannelHandle<u8>)], others: &[(ObjectHandle, u32)], by: &[&'static str]| -> Res {
        let by5: Vec<&'static str> = by.iter().copied().chain(["C05"]).collect();
        let live: HashSet<_> = objs.iter().map(|o| raw(o.0)).chain(others.iter().map(|o| raw(o.0))).collect();
        let mut n = 0;
        for (h, _) in b.iter_objects() {
            n += 1;
            want!(by, live.contains(&raw(h)), "an object is enumerated that is not alive");
        }
        want!(by, n == live.len(), "{n} objects enumerated, {} alive", live.len());
        for (o, v, s, c) in objs {
            want!(by, b.object(*o).is_ok(), "a live object is not there");
            let x = get!(by5, b.state(*s), "the state of a live object");
            want!(by5, x.value == *v, "a state reads {}, last write was {v}", x.value);
            let k = get!(by5, b.channel(*c), "the channel of a live object");
            want!(by5, k.keyframes().len() == 1 && *k.keyframes()[0].value() == *v as u8, "a channel is not that of {v}");
            want!(["C06"], b.bind_state(sid, *o).map_or(false, |h| h == *s), "binding again gave another handle");
        }
        for (o, v) in others {
            let h = get!(by, b.bind_state(sid2, *o), "the state of an object of the other contract");
            want!(by5, b[h].value == *v, "a state of the other contract changed");
        }
        let other = get!(by, b.contract_data(d.handle()), "the other contract");
        want!(by, other.objects().len() == others.len(), "the other contract lists {} objects", other.objects().len());
        Ok(())
    };
    let lists = |b: &Baseline, n: usize| b.contract_data(c.handle()).map_or(false, |d| d.objects().len() == n);
    audit(&b, &objs, &others, &["C02"])?;
    want!(["C02"], lists(&b, objs.len()), "the contract does not list all its objects");
    // writes
    for _ in 0..2000 {
        let i = r.below(objs.len());
        let v = r.next() as u32;
        let (_, old, s, ch) = objs[i];
        b[s].value = v;
        b[ch] = Channel::new(vec![Keyframe::new(v as u8, 0.0)].into_iter());
        objs[i].1 = v;
        let j = (i + (1 << r.below(16))) % objs.len();
        want!(["C05"], b[objs[j].2].value == objs[j].1, "writing one of many objects ({old} to {v}) changed another");
    }
    audit(&b, &objs, &others, &["C05"])?;
    // some go
    let mut dead = vec![];
    let mut keep = vec![];
    for (i, o) in objs.into_iter().enumerate() {
        if i % 7 == 3 || i > count - 20 {
            get!(["C02"], b.object_remove::<CTiny>(o.0), "removing one of many objects");
            dead.push(o);
        } else {
            keep.push(o);
        }
    }
    let mut objs = keep;
    audit(&b, &objs, &others, &["C02"])?;
    want!(["C02"], lists(&b, objs.len()), "the contract lists other objects than are alive");
    for i in 0..5000u32 {
        let o = get!(["C04"], tiny(&mut b, &c, i), "creating after removing");
        let sh = get!(["C06"], b.bind_state(sid, o), "binding");
        let chh = get!(["C06"], b.bind_channel(cid, o), "binding");
        objs.push((o, i, sh, chh));
    }
    audit(&b, &objs, &others, &["C02"])?;
    for (o, _, s, ch) in &dead {
        want!(["C02"], b.object(*o).is_err(), "a removed object is back");
        want!(["C02", "C05"], b.state(*s).is_err() && b.channel(*ch).is_err(), "a field of a removed object is back");
        want!(["C06"], b.bind_state(sid, *o).is_err() && b.bind_channel(cid, *o).is_err(), "a field of a removed object was bound");
    }
    // the whole contract goes
    get!(["C03"], b.unregister_contract::<CTiny>(c.handle()), "unregistering a contract with {} objects", objs.len());
    for (o, _, s, ch) in &objs {
        want!(["C02", "C03"], b.object(*o).is_err(), "an object outlived its contract, which had {} objects", objs.len());
        want!(["C02", "C03"], b.state(*s).is_err() && b.channel(*ch).is_err(), "a field outlived its contract, which had {} objects", objs.len());
    }
    audit(&b, &[], &others, &["C02", "C03"])
}

fn churn(count: usize, r: &mut Rng) -> Res {
    let mut b = Baseline::new(BaselineKind::Main);
    let c = get!(["C03"], b.register_contract::<CTiny>(), "register");
    let (sid, cid) = (StateId::<u32>::new(0, c.handle()), ChannelId::<u8>::new(0, c.handle()));
    // an object that stays
    let stay = get!(["C04"], tiny(&mut b, &c, 77), "create");
    let stay_s = get!(["C06"], b.bind_state(sid, stay), "bind");
    let mut dead: Vec<(ObjectHandle, StateHandle<u32>, ChannelHandle<u8>)> = vec![];
    let mut seen = HashSet::new();
    for i in 0..count {
        let o = get!(["C04"], tiny(&mut b, &c, i as u32), "creation {i} of many");
        want!(["C02", "C06"], seen.insert(raw(o)), "object {i} has the handle of an earlier one");
        let s = get!(["C06"], b.bind_state(sid, o), "bind");
        let ch = get!(["C06"], b.bind_channel(cid, o), "bind");
        want!(["C05"], b[s].value == i as u32, "a new object reads another value");
        for back in [1usize, 2, 255, 256, 4096, 32768, 65535, 65536, 65537] {
            if let Some((o2, s2, c2)) = dead.len().checked_sub(back).map(|j| dead[j]) {
                if back > 2 && i % 8 != 0 && i + 8 < count {
                    continue;
                }
                want!(["C02"], b.object(o2).is_err(), "object removed {back} lives ago is accepted again");
                want!(["C02", "C05"], b.state(s2).is_err() && b.channel(c2).is_err(), "a field of an object removed {back} lives ago is accepted again");
                want!(["C06"], b.bind_state(sid, o2).is_err(), "a field of an object removed {back} lives ago was bound");
            }
        }
        get!(["C02"], b.object_remove::<CTiny>(o), "removal {i} of many");
        dead.push((o, s, ch));
    }
    let o = get!(["C04"], tiny(&mut b, &c, 5), "create");
    for (o2, s2, c2) in &dead {
        want!(["C02"], b.object(*o2).is_err(), "a removed object is accepted again");
        want!(["C02", "C05"], b.state(*s2).is_err() && b.channel(*c2).is_err(), "a field of a removed object is accepted again");
        want!(["C02"], *o2 != o, "a new object has the handle of an old one");
    }
    for _ in 0..200 {
        let (o2, _, _) = dead[r.below(dead.len())];
        want!(["C02"], matches!(guarded(|| b.object_remove::<CTiny>(o2).is_err()), Ok(true)), "a removed object was removed again");
    }
    want!(["C02", "C05"], b[stay_s].value == 77 && b.object(o).is_ok() && b.iter_objects().count() == 2, "the live objects changed");
    // registrations
    let mut b = Baseline::new(BaselineKind::Main);
    let d = get!(["C03"], b.register_contract::<COther>(), "register");
    let dob = get!(["C04"], tiny(&mut b, &d, 9), "create");
    let mut gone: Vec<ContractDataHandle> = vec![];
    let mut seen = HashSet::new();
    for i in 0..count {
        let c = get!(["C03"], b.register_contract::<CTiny>(), "registration {i} of many");
        want!(["C03", "C06"], seen.insert(raw(c.handle())), "registration {i} has the handle of an earlier one");
        let o = get!(["C04", "C03"], tiny(&mut b, &c, i as u32), "create");
        for back in [1usize, 255, 256, 65535, 65536] {
            if let Some(h) = gone.len().checked_sub(back).map(|j| gone[j]) {
                want!(["C03"], b.contract_data(h).is_err(), "the handle of the contract unregistered {back} times ago is accepted");
                want!(["C03", "C06"], b.bind_state(StateId::<u32>::new(0, h), o).is_err(), "a field id of the registration {back} times ago was bound");
                if i % 64 == 0 {
                    want!(["C03"], b.unregister_contract::<CTiny>(h).is_err(), "a handle from {back} registrations ago unregistered the contract");
                }
            }
        }
        get!(["C03"], b.unregister_contract::<CTiny>(c.handle()), "unregistering for the {i}th time");
        want!(["C02", "C03"], b.object(o).is_err(), "an object outlived its contract");
        gone.push(c.handle());
    }
    want!(["C02", "C03"], b.object(dob).is_ok() && b.iter_objects().count() == 1, "the objects of another contract changed");
    for h in &gone {
        want!(["C03"], b.contract_data(*h).is_err(), "the handle of an unregistered contract is accepted");
    }
    Ok(())
}

// ---- long values
crate::contract!(CLong, SLong { t: String, a: Vec<u8>, b: Vec<String>, c: Vec<u64>, d: Vec<ObjectHandle>, e: Vec<f32> }, ChLong { t: String, a: Vec<u8>, n: u32 }, "verif.long", (1, 0, 0));

fn long_val(ty: usize, list: bool, n: usize, r: &mut Rng) -> Val {
    if list {
        return Val { ty, list, cells: (0..n).map(|_| gen_cell(ty, r)).collect() };
    }
    match ty {
        11 => Val { ty, list, cells: vec![Cell::Str((0..n).map(|_| char::from_u32(32 + r.below(400) as u32).unwrap()).collect())] },
        _ => gen_val(ty, list, r),
    }
}
/// Changes one element near the end.
fn tweak(v: &mut Val, r: &mut Rng) {
    let n = v.cells.len();
    if v.list {
        let i = n - 1 - r.below(3.min(n));
        v.cells[i] = gen_cell(v.ty, r);
    } else if let Cell::Str(s) = &mut v.cells[0] {
        s.pop();
        s.push(char::from_u32(65 + r.below(26) as u32).unwrap());
    }
}

fn long_values(n: usize, r: &mut Rng) -> Res {
    let mut b = Baseline::new(BaselineKind::Fork);
    let c = get!(["C03"], b.register_contract::<CLong>(), "register");
    let kind = CLong::kind();
    let mut s: Vec<Val> = kind.states.iter().map(|(t, l)| long_val(*t, *l, n, r)).collect();
    let chan = |t: usize, l: bool, r: &mut Rng| -> Frames {
        match (t, l) {
            (2, false) => (0..n / 2).map(|i| (gen_val(t, l, r), (i as f64).to_bits())).collect(),
            _ => (0..5).map(|i| (long_val(t, l, n / 8, r), (i as f64).to_bits())).collect(),
        }
    };
    let mut ch: Vec<Frames> = kind.chans.iter().map(|(t, l)| chan(*t, *l, r)).collect();
    let ds: Vec<_> = s.iter().map(to_dyn).collect();
    let dc: Vec<_> = ch.iter().zip(&kind.chans).map(|(f, (t, l))| to_dyn_chan(*t, *l, f)).collect();
    let o = get!(["C04"], b.object_create(&c, ds.into_iter(), dc.into_iter()), "creating an object with long fields");
    let ids = c.handle();
    for round in 0..8 {
        for (f, (t, l)) in kind.states.iter().enumerate() {
            let h = crate::dispatch!(*t, *l, T => get!(["C06"], b.bind_state(StateId::<T>::new(f, ids), o), "bind").into());
            let h: arena::generational_arena::Index = h;
            let h = h.into_raw_parts();
            if round > 0 {
                let path = r.below(6);
                if !(path == 3 || path == 4) && r.chance(1, 3) {
                    s[f] = long_val(*t, *l, n - r.below(n / 2), r);
                } else {
                    tweak(&mut s[f], r);
                }
                let v = &s[f];
                crate::dispatch!(*t, *l, T => get!(["C05"], write_state::<T>(&mut b, h, v, path), "writing a long state by path {path}"));
            }
            for (g, (t, l)) in kind.states.iter().enumerate() {
                if g != f && round % 3 != 0 {
                    continue;
                }
                let path = r.below(6);
                let h: arena::generational_arena::Index = crate::dispatch!(*t, *l, T => get!(["C06"], b.bind_state(StateId::<T>::new(g, ids), o), "bind").into());
                let got = crate::dispatch!(*t, *l, T => get!(["C05"], read_state::<T>(&b, h.into_raw_parts(), path), "reading a long state by path {path}"));
                want!(["C05"], got == s[g], "a long state (field {g}, {} elements) differs from the last write, by path {path}", s[g].cells.len());
            }
        }
        for (f, (t, l)) in kind.chans.iter().enumerate() {
            let h: arena::generational_arena::Index = crate::dispatch!(*t, *l, T => get!(["C06"], b.bind_channel(ChannelId::<T>::new(f, ids), o), "bind").into());
            let h = h.into_raw_parts();
            if round > 0 {
                let path = r.below(6);
                if r.chance(1, 3) {
                    ch[f] = chan(*t, *l, r);
                } else {
                    let m = ch[f].len();
                    let i = m - 1 - r.below(3.min(m));
                    ch[f][i].0 = long_val(*t, *l, n / 8, r);
                }
                let v = &ch[f];
                crate::dispatch!(*t, *l, T => get!(["C05"], write_chan::<T>(&mut b, h, v, path), "writing a long channel by path {path}"));
            }
            let path = r.below(5);
            let got = crate::dispatch!(*t, *l, T => get!(["C05"], read_chan::<T>(&b, h, path), "reading a long channel by path {path}"));
            want!(["C05"], got == ch[f], "a long channel (field {f}, {} keyframes) differs from the last write, by path {path}", ch[f].len());
        }
    }
    Ok(())
}

// ---- many fields
crate::contract!(CWide, SWide { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8, f24: u8, f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: u8, f32: u8, f33: u8, f34: u8, f35: u8, f36: u8, f37: u8, f38: u8, f39: u8, f40: u8, f41: u8, f42: u8, f43: u8, f44: u8, f45: u8, f46: u8, f47: u8, f48: u8, f49: u8, f50: u8, f51: u8, f52: u8, f53: u8, f54: u8, f55: u8, f56: u8, f57: u8, f58: u8, f59: u8, f60: u8, f61: u8, f62: u8, f63: u8, f64: u8, f65: u8, f66: u8, f67: u8, f68: u8, f69: u8, f70: u8, f71: u8, f72: u8, f73: u8, f74: u8, f75: u8, f76: u8, f77: u8, f78: u8, f79: u8, f80: u8, f81: u8, f82: u8, f83: u8, f84: u8, f85: u8, f86: u8, f87: u8, f88: u8, f89: u8, f90: u8, f91: u8, f92: u8, f93: u8, f94: u8, f95: u8, f96: u8, f97: u8, f98: u8, f99: u8, f100: u8, f101: u8, f102: u8, f103: u8, f104: u8, f105: u8, f106: u8, f107: u8, f108: u8, f109: u8, f110: u8, f111: u8, f112: u8, f113: u8, f114: u8, f115: u8, f116: u8, f117: u8, f118: u8, f119: u8, f120: u8, f121: u8, f122: u8, f123: u8, f124: u8, f125: u8, f126: u8, f127: u8, f128: u8, f129: u8, f130: u8, f131: u8, f132: u8, f133: u8, f134: u8, f135: u8, f136: u8, f137: u8, f138: u8, f139: u8, f140: u8, f141: u8, f142: u8, f143: u8, f144: u8, f145: u8, f146: u8, f147: u8, f148: u8, f149: u8, f150: u8, f151: u8, f152: u8, f153: u8, f154: u8, f155: u8, f156: u8, f157: u8, f158: u8, f159: u8, f160: u8, f161: u8, f162: u8, f163: u8, f164: u8, f165: u8, f166: u8, f167: u8, f168: u8, f169: u8, f170: u8, f171: u8, f172: u8, f173: u8, f174: u8, f175: u8, f176: u8, f177: u8, f178: u8, f179: u8, f180: u8, f181: u8, f182: u8, f183: u8, f184: u8, f185: u8, f186: u8, f187: u8, f188: u8, f189: u8, f190: u8, f191: u8, f192: u8, f193: u8, f194: u8, f195: u8, f196: u8, f197: u8, f198: u8, f199: u8, f200: u8, f201: u8, f202: u8, f203: u8, f204: u8, f205: u8, f206: u8, f207: u8, f208: u8, f209: u8, f210: u8, f211: u8, f212: u8, f213: u8, f214: u8, f215: u8, f216: u8, f217: u8, f218: u8, f219: u8, f220: u8, f221: u8, f222: u8, f223: u8, f224: u8, f225: u8, f226: u8, f227: u8, f228: u8, f229: u8, f230: u8, f231: u8, f232: u8, f233: u8, f234: u8, f235: u8, f236: u8, f237: u8, f238: u8, f239: u8, f240: u8, f241: u8, f242: u8, f243: u8, f244: u8, f245: u8, f246: u8, f247: u8, f248: u8, f249: u8, f250: u8, f251: u8, f252: u8, f253: u8, f254: u8, f255: u8, f256: u8, f257: u8, f258: u8, f259: u8, f260: u8, f261: u8, f262: u8, f263: u8, f264: u8, f265: u8, f266: u8, f267: u8, f268: u8, f269: u8, f270: u8, f271: u8, f272: u8, f273: u8, f274: u8, f275: u8, f276: u8, f277: u8, f278: u8, f279: u8, f280: u8, f281: u8, f282: u8, f283: u8, f284: u8, f285: u8, f286: u8, f287: u8, f288: u8, f289: u8, f290: u8, f291: u8, f292: u8, f293: u8, f294: u8, f295: u8, f296: u8, f297: u8, f298: u8, f299: u8 }, ChWide { f0: u16, f1: u8, f2: u8, f3: u16, f4: u8, f5: u8, f6: u16, f7: u8, f8: u8, f9: u16, f10: u8, f11: u8, f12: u16, f13: u8, f14: u8, f15: u16, f16: u8, f17: u8, f18: u16, f19: u8, f20: u8, f21: u16, f22: u8, f23: u8, f24: u16, f25: u8, f26: u8, f27: u16, f28: u8, f29: u8, f30: u16, f31: u8, f32: u8, f33: u16, f34: u8, f35: u8, f36: u16, f37: u8, f38: u8, f39: u16, f40: u8, f41: u8, f42: u16, f43: u8, f44: u8, f45: u16, f46: u8, f47: u8, f48: u16, f49: u8, f50: u8, f51: u16, f52: u8, f53: u8, f54: u16, f55: u8, f56: u8, f57: u16, f58: u8, f59: u8, f60: u16, f61: u8, f62: u8, f63: u16, f64: u8, f65: u8, f66: u16, f67: u8, f68: u8, f69: u16, f70: u8, f71: u8, f72: u16, f73: u8, f74: u8, f75: u16, f76: u8, f77: u8, f78: u16, f79: u8, f80: u8, f81: u16, f82: u8, f83: u8, f84: u16, f85: u8, f86: u8, f87: u16, f88: u8, f89: u8, f90: u16, f91: u8, f92: u8, f93: u16, f94: u8, f95: u8, f96: u16, f97: u8, f98: u8, f99: u16, f100: u8, f101: u8, f102: u16, f103: u8, f104: u8, f105: u16, f106: u8, f107: u8, f108: u16, f109: u8, f110: u8, f111: u16, f112: u8, f113: u8, f114: u16, f115: u8, f116: u8, f117: u16, f118: u8, f119: u8, f120: u16, f121: u8, f122: u8, f123: u16, f124: u8, f125: u8, f126: u16, f127: u8, f128: u8, f129: u16, f130: u8, f131: u8, f132: u16, f133: u8, f134: u8, f135: u16, f136: u8, f137: u8, f138: u16, f139: u8, f140: u8, f141: u16, f142: u8, f143: u8, f144: u16, f145: u8, f146: u8, f147: u16, f148: u8, f149: u8, f150: u16, f151: u8, f152: u8, f153: u16, f154: u8, f155: u8, f156: u16, f157: u8, f158: u8, f159: u16, f160: u8, f161: u8, f162: u16, f163: u8, f164: u8, f165: u16, f166: u8, f167: u8, f168: u16, f169: u8, f170: u8, f171: u16, f172: u8, f173: u8, f174: u16, f175: u8, f176: u8, f177: u16, f178: u8, f179: u8, f180: u16, f181: u8, f182: u8, f183: u16, f184: u8, f185: u8, f186: u16, f187: u8, f188: u8, f189: u16, f190: u8, f191: u8, f192: u16, f193: u8, f194: u8, f195: u16, f196: u8, f197: u8, f198: u16, f199: u8, f200: u8, f201: u16, f202: u8, f203: u8, f204: u16, f205: u8, f206: u8, f207: u16, f208: u8, f209: u8, f210: u16, f211: u8, f212: u8, f213: u16, f214: u8, f215: u8, f216: u16, f217: u8, f218: u8, f219: u16, f220: u8, f221: u8, f222: u16, f223: u8, f224: u8, f225: u16, f226: u8, f227: u8, f228: u16, f229: u8, f230: u8, f231: u16, f232: u8, f233: u8, f234: u16, f235: u8, f236: u8, f237: u16, f238: u8, f239: u8, f240: u16, f241: u8, f242: u8, f243: u16, f244: u8, f245: u8, f246: u16, f247: u8, f248: u8, f249: u16, f250: u8, f251: u8, f252: u16, f253: u8, f254: u8, f255: u16, f256: u8, f257: u8, f258: u16, f259: u8, f260: u8, f261: u16, f262: u8, f263: u8, f264: u16, f265: u8, f266: u8, f267: u16, f268: u8, f269: u8 }, "verif.wide", (1, 0, 0));

fn many_fields(r: &mut Rng) -> Res {
    let mut b = Baseline::new(BaselineKind::Fork);
    let c = get!(["C03"], b.register_contract::<CWide>(), "register");
    let kind = CWide::kind();
    let (ns, nc) = (kind.states.len(), kind.chans.len());
    let ids = c.handle();
    // by object, by field
    let mut s: Vec<Vec<Val>> = vec![];
    let mut ch: Vec<Vec<Frames>> = vec![];
    let mut objs = vec![];
    for _ in 0..3 {
        s.push(kind.states.iter().map(|(t, l)| gen_val(*t, *l, r)).collect());
        ch.push(kind.chans.iter().map(|(t, l)| gen_frames(*t, *l, r)).collect());
        let ds: Vec<_> = s.last().unwrap().iter().map(to_dyn).collect();
        let dc: Vec<_> = ch.last().unwrap().iter().zip(&kind.chans).map(|(f, (t, l))| to_dyn_chan(*t, *l, f)).collect();
        // all but the last field: refused
        for (i, j) in [(ns - 1, nc), (ns, nc - 1), (ns - 256, nc), (ns, nc - 256), (256, nc), (ns, 256)] {
            let short = (ds[..i].to_vec(), dc.iter().zip(&kind.chans).take(j).zip(ch.last().unwrap()).map(|((_, (t, l)), f)| to_dyn_chan(*t, *l, f)).collect::<Vec<_>>());
            let bad = guarded(|| b.object_create(&c, short.0.into_iter(), short.1.into_iter()).is_err());
            want!(["C04"], matches!(bad, Ok(true)), "an object with {i} of {ns} states and {j} of {nc} channels was created");
        }
        objs.push(get!(["C04"], b.object_create(&c, ds.into_iter(), dc.into_iter()), "creating an object of many fields"));
    }
    let mut storage = HashSet::new();
    let mut hs = vec![vec![]; 3];
    let mut hc = vec![vec![]; 3];
    for (i, o) in objs.iter().enumerate() {
        for (f, (t, l)) in kind.states.iter().enumerate() {
            let h: arena::generational_arena::Index = crate::dispatch!(*t, *l, T => get!(["C06"], b.bind_state(StateId::<T>::new(f, ids), *o), "binding state {f}").into());
            want!(["C06"], storage.insert((false, *t, h.into_raw_parts())), "state {f} shares its storage");
            hs[i].push(h.into_raw_parts());
        }
        for (f, (t, l)) in kind.chans.iter().enumerate() {
            let h: arena::generational_arena::Index = crate::dispatch!(*t, *l, T => get!(["C06"], b.bind_channel(ChannelId::<T>::new(f, ids), *o), "binding channel {f}").into());
            want!(["C06"], storage.insert((true, *t, h.into_raw_parts())), "channel {f} shares its storage");
            hc[i].push(h.into_raw_parts());
        }
    }
    for round in 0..3 {
        for i in 0..3 {
            if round == 2 && i == 1 {
                get!(["C02"], b.object_remove::<CWide>(objs[1]), "removing an object of many fields");
            }
            for (f, (t, l)) in kind.states.iter().enumerate() {
                let got = crate::dispatch!(*t, *l, T => guarded(|| read_state::<T>(&b, hs[i][f], r.below(6))));
                if round == 2 && i == 1 {
                    want!(["C02", "C05"], !matches!(got, Ok(Ok(_))), "state {f} of a removed object is read");
                    continue;
                }
                want!(["C05", "C06"], matches!(&got, Ok(Ok(v)) if *v == s[i][f]), "state {f} of {ns} reads {got:?}, last write was {:?}", s[i][f]);
                if r.chance(1, 3) {
                    let path = [0, 1, 2, 5][r.below(4)];
                    let v = gen_val(*t, *l, r);
                    crate::dispatch!(*t, *l, T => get!(["C05"], write_state::<T>(&mut b, hs[i][f], &v, path), "writing state {f}"));
                    s[i][f] = v;
                }
            }
            for (f, (t, l)) in kind.chans.iter().enumerate() {
                let got = crate::dispatch!(*t, *l, T => guarded(|| read_chan::<T>(&b, hc[i][f], r.below(5))));
                if round == 2 && i == 1 {
                    want!(["C02", "C05"], !matches!(got, Ok(Ok(_))), "channel {f} of a removed object is read");
                    continue;
                }
                want!(["C05", "C06"], matches!(&got, Ok(Ok(v)) if *v == ch[i][f]), "channel {f} of {nc} differs from the last write");
                if r.chance(1, 3) {
                    let v = gen_frames(*t, *l, r);
                    crate::dispatch!(*t, *l, T => get!(["C05"], write_chan::<T>(&mut b, hc[i][f], &v, r.below(3)), "writing channel {f}"));
                    ch[i][f] = v;
                }
            }
        }
    }
    get!(["C03"], b.unregister_contract::<CWide>(ids), "unregistering a contract of many fields");
    for (i, o) in objs.iter().enumerate() {
        want!(["C02", "C03"], b.object(*o).is_err(), "an object outlived its contract");
        for (f, (t, l)) in kind.states.iter().enumerate() {
            want!(["C02", "C03"], crate::dispatch!(*t, *l, T => b.state(sh::<T>(hs[i][f])).is_err()), "state {f} outlived its contract");
        }
        for (f, (t, l)) in kind.chans.iter().enumerate() {
            want!(["C02", "C03"], crate::dispatch!(*t, *l, T => b.channel(chh::<T>(hc[i][f])).is_err()), "channel {f} outlived its contract");
        }
    }
    Ok(())
}

/// The scenarios, as part of the check of `prop`.
pub fn run(rep: &mut Report, prop: &'static str) {
    if rep.only_case.is_some() || cfg!(miri) || std::env::var("VERIF_SCALE_DIV").is_ok() {
        return;
    }
    let rounds = rep.scale(1, 5);
    for k in 0..rounds {
        let seed = rep.seed;
        let mut go = |name: &str, f: &mut dyn FnMut(&mut Rng) -> Res| {
            let mut r = Rng::new(seed, 7_000_000 + k);
            let res = match guarded(|| f(&mut r)) {
                Ok(x) => x,
                Err(p) => Err(Fail { props: vec!["C02", "C03", "C04", "C05", "C06"], msg: format!("panic: {p}") }),
            };
            rep.eval((name, k), true);
            rep.count(&format!("scale: {name}"), 1);
            if let Err(f) = res {
                if f.props.contains(&prop) {
                    let key: String = f.msg.chars().filter(|c| !c.is_ascii_digit()).take(120).collect();
                    rep.violation(key, format!("{name}: {}", f.msg), vec![]);
                } else {
                    rep.count("histories ended by another property", 1);
                }
            }
        };
        go("300 contracts", &mut |r| many_contracts(r));
        go("300 states and 270 channels in a contract", &mut |r| many_fields(r));
        go("70000 objects", &mut |r| many_objects(70_000, r));
        go("70000 lives of one slot and registrations of one contract", &mut |r| churn(70_000, r));
        if prop == "C05" {
            go("long values", &mut |r| long_values(100_000, r));
        }
    }
}
