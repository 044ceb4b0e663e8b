//! Reads buffers made by hand, next to a model of what they mean, and buffers
//! damaged byte by byte.
use flatbuffers::{FlatBufferBuilder, UnionWIPOffset, WIPOffset};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::dynamic::{TpPrimitiveType, TpPropertyType};
use tp_client::contract::ContractDataHandle;
use tp_serialize::primitive::{TpPrimitive, TpPrimitiveKind};
use tp_serialize::*;
use vcore::report::h64;
use vcore::types::*;
use vcore::*;
use vser::*;

#[derive(Clone, Debug, PartialEq)]
struct FContract {
    id: bool,
    name: Option<String>,
    version: (u16, u16, u16),
    states: bool,
    names: Option<Vec<String>>,
    types: Option<Vec<i8>>,
}
#[derive(Clone, Debug, PartialEq)]
enum FVal {
    Cell(Cell),
    /// a text that is left out
    NoText,
    /// index of an object or contract
    Idx(u32),
    None,
}
#[derive(Clone, Debug, PartialEq)]
struct FState {
    ty: u8, // as in the union: 0 nothing, 1..=14
    v: FVal,
}
#[derive(Clone, Debug, PartialEq)]
struct FObject {
    contract: Option<u16>,
    states: Option<Vec<u32>>,
}
#[derive(Clone, Debug, PartialEq)]
struct FBase {
    contracts: Option<Vec<FContract>>,
    states: Option<Vec<FState>>,
    objects: Option<Vec<FObject>>,
}

fn kind_tag(ty: usize) -> i8 {
    ty as i8
}

fn write_base(f: &FBase) -> Vec<u8> {
    let mut b = FlatBufferBuilder::new();
    let contracts = f.contracts.as_ref().map(|cs| {
        let v: Vec<_> = cs
            .iter()
            .map(|c| {
                let name = c.name.as_ref().map(|n| b.create_string(n));
                let id = c.id.then(|| {
                    contract::ContractId::create(&mut b, &contract::ContractIdArgs { name, v_major: c.version.0, v_minor: c.version.1, v_patch: c.version.2 })
                });
                let names = c.names.as_ref().map(|ns| {
                    let v: Vec<_> = ns.iter().map(|n| b.create_string(n)).collect();
                    b.create_vector(&v)
                });
                let types = c.types.as_ref().map(|ts| {
                    let v: Vec<_> = ts.iter().map(|t| TpPrimitiveKind(*t)).collect();
                    b.create_vector(&v)
                });
                let states = c.states.then(|| contract::ContractStates::create(&mut b, &contract::ContractStatesArgs { names, types }));
                contract::Contract::create(&mut b, &contract::ContractArgs { id, states })
            })
            .collect();
        b.create_vector(&v)
    });
    let states = f.states.as_ref().map(|ss| {
        let v: Vec<_> = ss
            .iter()
            .map(|s| {
                macro_rules! scalar {
                    ($T:ident, $A:ident, $bits:expr) => {
                        primitive::$T::create(&mut b, &primitive::$A { v: $bits }).as_union_value()
                    };
                }
                let n = match &s.v {
                    FVal::Cell(Cell::Bits(n)) => *n,
                    FVal::Idx(i) => *i as u64,
                    _ => 0,
                };
                let p: Option<WIPOffset<UnionWIPOffset>> = match (s.ty, &s.v) {
                    (_, FVal::None) => None,
                    (2, _) => Some(scalar!(U16, U16Args, n as u16)),
                    (3, _) => Some(scalar!(U32, U32Args, n as u32)),
                    (4, _) => Some(scalar!(U64, U64Args, n)),
                    (5, _) => Some(scalar!(I8, I8Args, n as i8)),
                    (6, _) => Some(scalar!(I16, I16Args, n as i16)),
                    (7, _) => Some(scalar!(I32, I32Args, n as i32)),
                    (8, _) => Some(scalar!(I64, I64Args, n as i64)),
                    (9, _) => Some(scalar!(Bool, BoolArgs, n != 0)),
                    (10, _) => Some(scalar!(F32, F32Args, f32::from_bits(n as u32))),
                    (11, _) => Some(scalar!(F64, F64Args, f64::from_bits(n))),
                    (12, v) => {
                        let v = match v {
                            FVal::Cell(Cell::Str(s)) => Some(b.create_string(s)),
                            _ => None,
                        };
                        Some(primitive::FbString::create(&mut b, &primitive::FbStringArgs { v }).as_union_value())
                    }
                    (13, _) => Some(object::ObjectHandle::create(&mut b, &object::ObjectHandleArgs { idx: n as u32 }).as_union_value()),
                    (14, _) => Some(contract::ContractDataHandle::create(&mut b, &contract::ContractDataHandleArgs { idx: n as u16 }).as_union_value()),
                    _ => Some(scalar!(U8, U8Args, n as u8)),
                };
                state::State::create(&mut b, &state::StateArgs { p_type: TpPrimitive(s.ty), p })
            })
            .collect();
        b.create_vector(&v)
    });
    let objects = f.objects.as_ref().map(|os| {
        let v: Vec<_> = os
            .iter()
            .map(|o| {
                let contract = o.contract.map(|idx| contract::ContractDataHandle::create(&mut b, &contract::ContractDataHandleArgs { idx }));
                let states = o.states.as_ref().map(|ss| {
                    let v: Vec<_> = ss.iter().map(|idx| state::StateHandle::create(&mut b, &state::StateHandleArgs { idx: *idx })).collect();
                    b.create_vector(&v)
                });
                object::Object::create(&mut b, &object::ObjectArgs { contract, states })
            })
            .collect();
        b.create_vector(&v)
    });
    let root = baseline::Baseline::create(&mut b, &baseline::BaselineArgs { contracts, states, objects });
    b.finish(root, Some(tp_serialize::PREFIX));
    b.finished_data().to_vec()
}

/// A correct description of random objects of the contracts given.
fn generate(r: &mut Rng, ks: &[SerKind], cs: &[usize], n: usize) -> FBase {
    let contracts = cs
        .iter()
        .map(|k| FContract {
            id: true,
            name: Some(ks[*k].k.id.name.into()),
            version: ks[*k].k.id.version,
            states: true,
            names: Some(ks[*k].fields.iter().map(|f| f.to_string()).collect()),
            types: Some(ks[*k].k.states.iter().map(|s| kind_tag(s.0)).collect()),
        })
        .collect();
    let (mut states, mut objects) = (vec![], vec![]);
    for _ in 0..n {
        let c = r.below(cs.len());
        let mut ss = vec![];
        for (ty, _) in &ks[cs[c]].k.states {
            let v = match ty {
                12 => FVal::Idx(r.below(n) as u32),
                13 => FVal::Idx(r.below(cs.len()) as u32),
                t => FVal::Cell(gen_cell(*t, r)),
            };
            ss.push(states.len() as u32);
            states.push(FState { ty: *ty as u8 + 1, v });
        }
        objects.push(FObject { contract: Some(c as u16), states: Some(ss) });
    }
    if r.chance(1, 2) {
        // states need not be in the order of their use
        let m = states.len();
        let mut p: Vec<usize> = (0..m).collect();
        r.shuffle(&mut p);
        let mut moved = states.clone();
        for (from, to) in p.iter().enumerate() {
            moved[*to] = states[from].clone();
        }
        states = moved;
        for o in &mut objects {
            for s in o.states.as_mut().unwrap() {
                *s = p[*s as usize] as u32;
            }
        }
    }
    FBase { contracts: Some(contracts), states: Some(states), objects: Some(objects) }
}

/// Breaks one thing, says what.
/// Another text that is much like `s`.
fn alike(s: &mut String, r: &mut Rng) {
    let at: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    match r.below(7) {
        0 => s.push('_'),
        1 => {
            s.pop();
        }
        2 => s.insert(0, 'x'),
        3 => s.push(*r.pick(&[' ', '\0', 'x'])),
        4 if !at.is_empty() => {
            // one letter in the other case
            let from = r.below(at.len());
            if let Some(i) = at.iter().cycle().skip(from).take(at.len()).find(|i| s.as_bytes()[**i].is_ascii_alphabetic()) {
                let c = (s.as_bytes()[*i] ^ 0x20) as char;
                s.replace_range(*i..*i + 1, &c.to_string());
            }
        }
        5 if !at.is_empty() => {
            let i = *r.pick(&at);
            let n = s[i..].chars().next().unwrap().len_utf8();
            s.replace_range(i..i + n, *r.pick(&["a", "b", "_", "1", "\u{e9}"]));
        }
        _ => {
            let x: String = s.chars().rev().collect();
            *s = x;
        }
    }
}
fn corrupt(f: &mut FBase, r: &mut Rng) -> &'static str {
    let wild = |r: &mut Rng, n: usize| match r.below(5) {
        0 => n as u32,
        1 => n as u32 + 1,
        2 => u32::MAX,
        3 => 0x1_0000,
        _ => r.below(n + 2) as u32,
    };
    let nc = f.contracts.as_ref().map_or(0, |c| c.len());
    let ns = f.states.as_ref().map_or(0, |c| c.len());
    let no = f.objects.as_ref().map_or(0, |c| c.len());
    for _ in 0..40 {
        match r.below(26) {
            0 if r.chance(1, 4) => {
                f.contracts = None;
                return "no contracts";
            }
            1 if r.chance(1, 4) => {
                f.states = None;
                return "no states";
            }
            2 if r.chance(1, 4) => {
                f.objects = None;
                return "no objects";
            }
            k @ 3..=12 if nc > 0 => {
                let at = r.below(nc);
                let copy = f.contracts.as_ref().unwrap()[r.below(nc)].clone();
                let cs = f.contracts.as_mut().unwrap();
                let c = &mut cs[at];
                match k {
                    3 => {
                        c.id = false;
                        return "contract without id";
                    }
                    4 => {
                        c.name = None;
                        return "contract without name";
                    }
                    5 => {
                        match r.below(3) {
                            0 => c.version.0 ^= 1 << r.below(16),
                            1 => c.version.1 ^= 1 << r.below(16),
                            _ => c.version.2 ^= 1 << r.below(16),
                        }
                        return "contract with another version";
                    }
                    6 => {
                        c.states = false;
                        return "contract without fields";
                    }
                    7 => {
                        if r.chance(1, 2) {
                            c.names = None
                        } else {
                            c.types = None
                        }
                        return "contract without names or types of fields";
                    }
                    8 => {
                        if let Some(n) = &mut c.name {
                            alike(n, r);
                            return "contract with another name";
                        }
                    }
                    9 => {
                        if let Some(ns) = c.names.as_mut().filter(|n| !n.is_empty()) {
                            let i = r.below(ns.len());
                            match r.below(4) {
                                0 => {
                                    ns.remove(i);
                                }
                                1 => ns.push("more".into()),
                                2 => alike(&mut ns[i], r),
                                _ => {
                                    let j = r.below(ns.len());
                                    ns.swap(i, j)
                                }
                            }
                            return "contract with other field names";
                        }
                    }
                    10 => {
                        if let Some(ts) = c.types.as_mut().filter(|n| !n.is_empty()) {
                            let i = r.below(ts.len());
                            match r.below(5) {
                                0 => ts[i] = r.below(14) as i8,
                                1 => {
                                    ts.remove(i);
                                }
                                2 => ts.push(0),
                                3 => ts[i] = *r.pick(&[14, 15, 127, -1, -128]),
                                _ => {
                                    let j = r.below(ts.len());
                                    ts.swap(i, j)
                                }
                            }
                            return "contract with other field types";
                        }
                    }
                    11 => {
                        let to = r.below(nc + 1);
                        cs.insert(to, copy);
                        return "contract described twice";
                    }
                    _ => {
                        cs.remove(at);
                        return "contract left out";
                    }
                }
            }
            k @ 13..=18 if ns > 0 => {
                let at = r.below(ns);
                let copy = f.states.as_ref().unwrap()[r.below(ns)].clone();
                let ss = f.states.as_mut().unwrap();
                match k {
                    13 => {
                        ss[at].ty = *r.pick(&[0, 15, 16, 100, 255]);
                        if r.chance(1, 2) {
                            ss[at].v = FVal::None;
                        }
                        return "state of no or unknown type";
                    }
                    14 => {
                        ss[at].v = FVal::None;
                        return "state without value";
                    }
                    15 => {
                        ss[at] = copy;
                        return "state of another field";
                    }
                    16 => {
                        if let Some(s) = ss.iter_mut().filter(|s| s.ty == 12).last() {
                            s.v = FVal::NoText;
                            return "text left out";
                        }
                    }
                    17 => {
                        let i = r.below(ns);
                        if let Some(s) = ss.iter_mut().skip(i).find(|s| s.ty >= 13 && s.ty <= 14) {
                            s.v = FVal::Idx(if s.ty == 13 { wild(r, no) } else { wild(r, nc) as u16 as u32 });
                            return "reference out of range";
                        }
                    }
                    _ => {
                        ss.remove(at);
                        return "state left out";
                    }
                }
            }
            k @ 19..=25 if no > 0 => {
                let at = r.below(no);
                let copy = f.objects.as_ref().unwrap()[r.below(no)].clone();
                let os = f.objects.as_mut().unwrap();
                match k {
                    19 => {
                        os[at].contract = None;
                        return "object without contract";
                    }
                    20 => {
                        os[at].contract = Some(wild(r, nc) as u16);
                        return "object of another contract";
                    }
                    21 => {
                        os[at].states = None;
                        return "object without states";
                    }
                    22 | 23 => {
                        if let Some(ss) = os[at].states.as_mut().filter(|s| !s.is_empty()) {
                            let i = r.below(ss.len());
                            match r.below(5) {
                                0 => ss[i] = wild(r, ns),
                                1 => {
                                    ss.remove(i);
                                }
                                2 => ss.push(wild(r, ns)),
                                3 => ss[i] = u32::MAX - r.below(3) as u32,
                                _ => {
                                    let j = r.below(ss.len());
                                    ss.swap(i, j)
                                }
                            }
                            return "object with other states";
                        }
                    }
                    24 => {
                        os.insert(r.below(no + 1), copy);
                        return "object described twice";
                    }
                    _ => {
                        os.remove(at);
                        return "object left out";
                    }
                }
            }
            _ => {}
        }
    }
    "nothing"
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    New,
    Register(usize),
    Objects(usize),
    Finish,
}

/// What the steps should do with `f`, and at the end what should be there:
/// for each contract the objects' values, with references as positions.
#[derive(Default)]
struct Meaning {
    regs: Vec<(usize, usize)>, // kind, position in the buffer
    objects: HashMap<usize, usize>, // position of the object, kind
    tracked: BTreeSet<u32>,
    done: BTreeSet<usize>,
}
impl Meaning {
    fn step(&mut self, f: &FBase, ks: &[SerKind], s: Step) -> Result<(), &'static str> {
        let none = vec![];
        let states = f.states.as_ref();
        match s {
            Step::New => {
                for s in states.unwrap_or(&vec![]) {
                    if (s.ty == 0) != (s.v == FVal::None) {
                        return Err("a state with a type and no value, or a value and no type");
                    }
                }
                Ok(())
            }
            Step::Register(k) => {
                let kind = &ks[k];
                let at = f.contracts.as_ref().and_then(|cs| {
                    cs.iter().position(|c| {
                        c.id && c.name.as_deref() == Some(kind.k.id.name)
                            && c.version == kind.k.id.version
                            && c.states
                            && c.names.as_ref().map_or(false, |n| n.iter().map(|s| s.as_str()).eq(kind.fields.iter().copied()))
                            && c.types.as_ref().map_or(false, |t| t.iter().copied().eq(kind.k.states.iter().map(|s| kind_tag(s.0))))
                    })
                });
                let Some(at) = at else { return Err("no such contract in the buffer") };
                if self.regs.iter().any(|x| ks[x.0].k.id == kind.k.id) {
                    return Err("registered before");
                }
                self.regs.push((k, at));
                Ok(())
            }
            Step::Objects(i) => {
                let (k, at) = self.regs[i];
                for (pos, o) in f.objects.as_ref().unwrap_or(&vec![]).iter().enumerate() {
                    if o.contract.map(|c| c as usize) != Some(at) {
                        continue;
                    }
                    if self.objects.contains_key(&pos) {
                        return Err("read before");
                    }
                    let ss = o.states.as_ref().unwrap_or(&none);
                    if ss.len() != ks[k].k.states.len() {
                        return Err("wrong number of states");
                    }
                    if states.is_none() && o.states.is_some() && ss.is_empty() {
                        return Err("?an empty list of states in a buffer without states");
                    }
                    let mut mine = BTreeSet::new();
                    for (s, (ty, _)) in ss.iter().zip(&ks[k].k.states) {
                        let Some(st) = states.and_then(|x| x.get(*s as usize)) else { return Err("state out of range") };
                        if st.ty as usize != ty + 1 {
                            return Err("state of another type");
                        }
                        match (ty, &st.v) {
                            (11, FVal::NoText) => return Err("text missing"),
                            (12, _) => {
                                if self.tracked.contains(s) || !mine.insert(*s) {
                                    // (one that is shared could be read, too)
                                    return Err("?shared reference");
                                }
                            }
                            (13, FVal::Idx(c)) if !self.regs.iter().any(|x| x.1 == *c as u16 as usize) => return Err("reference to a contract that was not registered"),
                            _ => {}
                        }
                    }
                    self.tracked.extend(mine);
                    self.objects.insert(pos, k);
                }
                self.done.insert(i);
                Ok(())
            }
            Step::Finish => {
                for s in &self.tracked {
                    if let FVal::Idx(o) = &states.unwrap()[*s as usize].v {
                        if !self.objects.contains_key(&(*o as usize)) {
                            return Err("reference to an object that was not read");
                        }
                    }
                }
                if self.objects.len() != f.objects.as_ref().map_or(0, |o| o.len()) {
                    return Err("objects that were not read");
                }
                Ok(())
            }
        }
    }
    /// The contents as a picture, with positions for handles.
    fn picture(&self, f: &FBase, ks: &[SerKind]) -> Picture {
        let mut p = Picture { contracts: self.regs.iter().map(|(k, at)| (*k, (*at, 9))).collect(), objects: vec![] };
        for (pos, k) in &self.objects {
            let o = &f.objects.as_ref().unwrap()[*pos];
            let vals = o.states.iter().flatten().map(|s| match &f.states.as_ref().unwrap()[*s as usize].v {
                FVal::Cell(c) => c.clone(),
                FVal::Idx(i) => Cell::Handle(*i as usize, 9),
                _ => unreachable!(),
            });
            p.objects.push((*k, (*pos, 9), vals.collect()));
        }
        p.objects.sort_by_key(|o| (o.0, o.1));
        p
    }
}

/// Runs the steps against the real reader; the results of each step, and the
/// baseline if it came to that.
fn run(data: &[u8], ks: &[SerKind], steps: &[Step]) -> (Vec<Result<(), String>>, Option<(Baseline, Vec<(usize, ContractDataHandle)>)>) {
    let mut out = vec![];
    let mut d = match DeserializerBuilder::new(data, BaselineKind::Fork) {
        Ok(d) => d,
        Err(e) => return (vec![Err(format!("{e:#}"))], None),
    };
    out.push(Ok(()));
    let mut regs = vec![];
    let mut i = 1;
    while let Some(Step::Register(k)) = steps.get(i) {
        match (ks[*k].reg)(&mut d) {
            Ok(h) => {
                regs.push((*k, h));
                out.push(Ok(()))
            }
            Err(e) => out.push(Err(e)),
        }
        i += 1;
    }
    let mut d = d.finish();
    while let Some(Step::Objects(at)) = steps.get(i) {
        if *at >= regs.len() {
            return (out, None);
        }
        let r = (ks[regs[*at].0].de)(&mut d, regs[*at].1);
        let stop = r.is_err();
        out.push(r);
        if stop {
            return (out, None);
        }
        i += 1;
    }
    match d.finish() {
        Ok(b) => {
            out.push(Ok(()));
            (out, Some((b, regs)))
        }
        Err(e) => {
            out.push(Err(format!("{e:#}")));
            (out, None)
        }
    }
}

fn by_hand(r: &mut Rng, ks: &[SerKind], count: &mut Vec<String>) -> Result<(u64, String), String> {
    let mut cs: Vec<usize> = (0..ks.len() - 2).collect();
    r.shuffle(&mut cs);
    cs.truncate(1 + r.below(5));
    if r.chance(1, 2) && !cs.contains(&TWINNED) {
        cs[0] = TWINNED;
    }
    let n = r.below(8);
    let mut f = generate(r, ks, &cs, n);
    let mut text = String::new();
    for _ in 0..r.below(3) {
        let what = corrupt(&mut f, r);
        count.push(what.into());
        write!(text, "{what}; ").unwrap();
    }
    let data = write_base(&f);
    // the order of the steps: mostly sensible, at times not
    let mut regs = cs.clone();
    r.shuffle(&mut regs);
    match r.below(8) {
        0 => {
            regs.pop();
        }
        1 => regs.push(regs[0]),
        2 => regs.push(r.below(ks.len() - 2)),
        _ => {}
    }
    let mut m = Meaning::default();
    let mut want: Vec<(Step, Result<(), &'static str>)> = vec![(Step::New, m.step(&f, ks, Step::New))];
    if want[0].1.is_ok() {
        for k in regs {
            want.push((Step::Register(k), m.step(&f, ks, Step::Register(k))));
        }
        let mut des: Vec<usize> = (0..m.regs.len()).collect();
        r.shuffle(&mut des);
        if !des.is_empty() {
            match r.below(8) {
                0 => {
                    des.pop();
                }
                1 => des.push(des[0]),
                _ => {}
            }
        }
        let mut ok = true;
        for i in des {
            let w = m.step(&f, ks, Step::Objects(i));
            ok &= w.is_ok();
            want.push((Step::Objects(i), w));
            if !ok {
                break;
            }
        }
        if ok {
            want.push((Step::Finish, m.step(&f, ks, Step::Finish)));
        }
    }
    // a step that should fail may not: then there is nothing left to compare
    let steps: Vec<Step> = want.iter().map(|w| w.0).collect();
    let (got, base) = guarded(|| run(&data, ks, &steps)).map_err(|p| format!("reading panicked: {p} (after: {text})"))?;
    let mut fails = None;
    for (i, (s, w)) in want.iter().enumerate() {
        let name = |s: &Step| match s {
            Step::New => "opening".to_string(),
            Step::Register(k) => format!("registering {}", ks[*k].k.name),
            Step::Objects(i) => format!("reading the objects of {}", ks[m.regs[*i].0].k.name),
            Step::Finish => "finishing".into(),
        };
        match (w, got.get(i)) {
            (_, None) => return Err(format!("{} was not reached (after: {text})", name(s))),
            (Ok(()), Some(Ok(()))) => {}
            (Err(e), Some(Err(_))) => {
                fails = Some(*e);
                count.push(format!("refused: {e}"));
            }
            (Ok(()), Some(Err(e))) => return Err(format!("{} was refused: {e} (after: {text})", name(s))),
            (Err(e), Some(Ok(()))) if e.starts_with('?') => {
                count.push(format!("open: {e}"));
                return Ok((h64(&data), text));
            }
            (Err(e), Some(Ok(()))) => return Err(format!("{} was accepted, but there is {e} (after: {text})", name(s))),
        }
    }
    match base {
        None if fails.is_none() => return Err("nothing was read".into()),
        None => {}
        Some((b, regs)) => {
            let got = picture(&b, ks, &regs)?;
            if let Some(d) = got.dangling(ks) {
                return Err(format!("after reading, {d} (after: {text})"));
            }
            if b.iter_objects().count() != got.objects.len() {
                return Err(format!("objects of no contract were read (after: {text})"));
            }
            if got.shape(ks) != m.picture(&f, ks).shape(ks) {
                return Err(format!("what was read is not what the buffer says (after: {text})"));
            }
            count.push("read".into());
        }
    }
    Ok((h64(&data), text))
}

/// Buffers damaged in their bytes: no panic, and what is read is whole.
fn by_byte(r: &mut Rng, ks: &[SerKind], data: &[u8], cs: &[usize]) -> Result<(u64, bool), String> {
    let mut d = data.to_vec();
    let n = 1 + r.below(4);
    for _ in 0..n {
        if d.is_empty() {
            break;
        }
        let at = r.below(d.len());
        match r.below(12) {
            0 => d.truncate(at),
            1 => d.insert(at, r.next() as u8),
            2 => {
                d.remove(at);
            }
            3 => d[at] = 0,
            4 => d[at] = 255,
            5 | 6 => d[at] ^= 1 << r.below(8),
            7 => d[at] = d[at].wrapping_add(1),
            8 => d[at] = d[at].wrapping_sub(1),
            9 => {
                // a word
                let at = at & !3;
                if at + 4 <= d.len() {
                    let w = match r.below(4) {
                        0 => 0,
                        1 => u32::MAX,
                        2 => r.below(d.len() + 4) as u32,
                        _ => (d.len() as u32).wrapping_sub(at as u32),
                    };
                    d[at..at + 4].copy_from_slice(&w.to_le_bytes());
                }
            }
            10 => {
                let from = r.below(d.len()) & !3;
                let at = at & !3;
                if from + 4 <= d.len() && at + 4 <= d.len() {
                    let w: [u8; 4] = d[from..from + 4].try_into().unwrap();
                    d[at..at + 4].copy_from_slice(&w);
                }
            }
            _ => {
                d[at] = r.next() as u8;
            }
        }
    }
    let mut steps = vec![Step::New];
    steps.extend(cs.iter().map(|k| Step::Register(*k)));
    let before = std::time::Instant::now();
    let out = guarded(|| {
        let mut b = match DeserializerBuilder::new(&d, BaselineKind::Main) {
            Err(_) => return Ok(None),
            Ok(b) => b,
        };
        let mut regs = vec![];
        for k in cs {
            if let Ok(h) = (ks[*k].reg)(&mut b) {
                regs.push((*k, h));
            }
        }
        let mut b = b.finish();
        for (k, h) in &regs {
            if (ks[*k].de)(&mut b, *h).is_err() {
                return Ok(None);
            }
        }
        let Ok(b) = b.finish() else { return Ok(None) };
        let p = picture(&b, ks, &regs)?;
        if let Some(d) = p.dangling(ks) {
            return Err(format!("after reading a damaged buffer, {d}"));
        }
        if b.iter_objects().count() != p.objects.len() {
            return Err("objects of no contract were read from a damaged buffer".into());
        }
        Ok(Some(()))
    })
    .map_err(|p| format!("reading a damaged buffer panicked: {p}"))?;
    if before.elapsed().as_secs() > 60 {
        return Err(format!("reading a damaged buffer of {} bytes took {:?}", d.len(), before.elapsed()));
    }
    Ok((h64(&d), out?.is_some()))
}

fn tags(rep: &mut Report) {
    let names = ["U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64", "Bool", "F32", "F64", "String", "ObjectHandle", "ContractDataHandle"];
    let union_name = |i: usize| match i {
        11 => "FbString".to_string(),
        12 => "tp_serialize_object_ObjectHandle".into(),
        13 => "tp_serialize_contract_ContractDataHandle".into(),
        i => names[i].to_string(),
    };
    rep.case("type tags", || {
        let kind = |name: &str| TpPrimitiveKind::ENUM_VALUES.iter().find(|k| k.variant_name() == Some(name)).copied().ok_or(format!("the format has no {name}"));
        let union = |name: &str| TpPrimitive::ENUM_VALUES.iter().find(|k| k.variant_name() == Some(name)).copied().ok_or(format!("the format has no {name}"));
        for i in 0..14 {
            let (ki, ui) = (kind(names[i])?, union(&union_name(i))?);
            let want = TAGS[i];
            if TpPrimitiveKind::from(want) != ki {
                return Err(format!("{want:?} is written as {:?}", TpPrimitiveKind::from(want)));
            }
            for j in 0..14 {
                let (kj, uj, tj) = (kind(names[j])?, union(&union_name(j))?, TpPropertyType::Primitive(TAGS[j]));
                let vj = TpPropertyType::Vec(TAGS[j]);
                let e = i == j;
                let got = [ki == tj, tj == ki, ui == tj, tj == ui, ui == kj, kj == ui, ki == kj, ui == uj];
                if got != [e; 8] {
                    return Err(format!("tags of {} and {} compare as {got:?}", names[i], names[j]));
                }
                if ki == vj || vj == ki || ui == vj || vj == ui {
                    return Err(format!("the tag of {} equals that of lists of {}", names[i], names[j]));
                }
            }
        }
        for x in [14i8, 15, 127, -1, -128] {
            for j in 0..14 {
                let t = TpPropertyType::Primitive(TAGS[j]);
                if TpPrimitiveKind(x) == t || t == TpPrimitiveKind(x) || TpPrimitive(x as u8 | 0x80) == t || TpPrimitive::NONE == t {
                    return Err(format!("an unknown tag equals {}", names[j]));
                }
                if TpPrimitive::NONE == kind(names[j])? || TpPrimitive(200) == kind(names[j])? {
                    return Err(format!("an unknown tag equals {}", names[j]));
                }
            }
        }
        let _: fn(TpPrimitiveType) -> TpPrimitiveKind = TpPrimitiveKind::from;
        Ok(())
    });
    rep.count("tag comparisons", 14 * 14 * 10);
}

fn main() {
    let mut rep = Report::new("C22", "Buffers described field by field, with things left out, doubled, mistyped, misnamed, out of range or of unknown type, read in sensible and senseless orders of steps: each step's acceptance and the contents must be what a model of the description says. And valid buffers with damaged bytes: no panic, and whatever is accepted holds together. Distinct by the bytes");
    let ks = kinds();
    if rep.only_case.is_none() {
        tags(&mut rep);
    }
    let n = rep.scale(80_000, 2_000_000);
    let mut valid = vec![];
    for case in 0..n {
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        if rep.violations.len() >= 5 || (rep.out_of_time() && case % 2 == 0) {
            break;
        }
        let mut r = Rng::new(rep.seed, 2200 + case);
        let mut seen = vec![];
        match guarded(|| by_hand(&mut r, &ks, &mut seen)) {
            Ok(Ok((sig, text))) => {
                rep.eval(sig, true);
                rep.sample(|| text);
            }
            Ok(Err(e)) => {
                let key: String = e.split(" (after").next().unwrap().chars().filter(|c| !c.is_ascii_digit()).take(110).collect();
                rep.violation(key, e, vec![format!("case {case}")])
            }
            Err(p) => rep.violation("observing a baseline panicked", p, vec![format!("case {case}")]),
        }
        for k in seen {
            rep.count(&k, 1);
        }
    }
    // buffers as the serialiser writes them
    for i in 0..60 {
        let mut r = Rng::new(rep.seed, 2_200_000 + i);
        let mut within: Vec<usize> = (0..MAIN).collect();
        r.shuffle(&mut within);
        within.truncate(1 + r.below(4));
        let src = source(&mut r, &ks, &within, 5);
        let sel: Vec<_> = src.cs.iter().copied().filter(|c| within.contains(&c.0)).collect();
        if let Ok(Ok(d)) = guarded(|| serialise(&src.b, &ks, &sel, false)) {
            valid.push((d, sel.iter().map(|c| c.0).collect::<Vec<_>>()));
        }
    }
    for i in 0..60 {
        // and by hand
        let mut r = Rng::new(rep.seed, 2_300_000 + i);
        let mut cs: Vec<usize> = (0..MAIN).collect();
        r.shuffle(&mut cs);
        cs.truncate(1 + r.below(4));
        let n = r.below(5);
        let f = generate(&mut r, &ks, &cs, n);
        valid.push((write_base(&f), cs));
    }
    let m = rep.scale(800_000, 20_000_000);
    for case in 0..m {
        let id = 1_000_000_000 + case;
        if rep.only_case.map_or(false, |c| c != id) {
            continue;
        }
        if rep.stop() {
            break;
        }
        let mut r = Rng::new(rep.seed, id);
        let (d, cs) = &valid[r.below(valid.len())];
        match guarded(|| by_byte(&mut r, &ks, d, cs)) {
            Ok(Ok((sig, read))) => {
                rep.eval(sig, true);
                rep.count(if read { "damaged buffers read" } else { "damaged buffers refused" }, 1);
            }
            Ok(Err(e)) => {
                let key: String = e.chars().filter(|c| !c.is_ascii_digit()).take(110).collect();
                rep.violation(key, e, vec![format!("case {id}")])
            }
            Err(p) => rep.violation("observing a baseline panicked", p, vec![format!("case {id}")]),
        }
    }
    rep.finish()
}
