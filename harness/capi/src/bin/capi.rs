//! Random histories of a well-behaved C client next to a model.
//! VERIF_MODE=c16 judges memory (run it under AddressSanitizer), c17 values.
#![allow(clippy::all, non_snake_case)]
use std::sync::atomic::Ordering::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::{channels, states, Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;
use vcapi::ffi::*;
use vcapi::mem;
use vcore::types::*;
use vcore::*;

#[cfg(not(miri))]
#[global_allocator]
static A: mem::Watch = mem::Watch;

type Res = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

/// A client's own contract with a state and a channel of every type.
#[states]
struct AllStates {
    s_u8: u8, s_u16: u16, s_u32: u32, s_u64: u64, s_i8: i8, s_i16: i16, s_i32: i32, s_i64: i64,
    s_bool: bool, s_f32: f32, s_f64: f64, s_string: String, s_oh: ObjectHandle, s_ch: ContractDataHandle,
}
#[channels]
struct AllChannels {
    c_u8: u8, c_u16: u16, c_u32: u32, c_u64: u64, c_i8: i8, c_i16: i16, c_i32: i32, c_i64: i64,
    c_bool: bool, c_f32: f32, c_f64: f64, c_string: String, c_oh: ObjectHandle, c_ch: ContractDataHandle,
}
struct AllContract {
    h: ContractDataHandle,
    s: AllStates,
    c: AllChannels,
}
impl Contract for AllContract {
    type States = AllStates;
    type Channels = AllChannels;
    const ID: ContractId = ContractId { name: "verif.c-client ✓", version: (65535, 0, 256) };
    fn new(h: ContractDataHandle) -> Self {
        Self { h, s: AllStates::new(h), c: AllChannels::new(h) }
    }
    fn states(&self) -> &AllStates {
        &self.s
    }
    fn channels(&self) -> &AllChannels {
        &self.c
    }
    fn handle(&self) -> ContractDataHandle {
        self.h
    }
}

type Acc = unsafe extern "C" fn(P) -> P;
const EX: [(usize, Acc, &str); 9] = [
    (0, tp_contract_example__ExampleStates__u8_0, "u8_0"),
    (0, tp_contract_example__ExampleStates__u8_1, "u8_1"),
    (4, tp_contract_example__ExampleStates__i8_0, "i8_0"),
    (4, tp_contract_example__ExampleStates__i8_1, "i8_1"),
    (9, tp_contract_example__ExampleStates__f32_0, "f32_0"),
    (9, tp_contract_example__ExampleStates__f32_1, "f32_1"),
    (11, tp_contract_example__ExampleStates__str_0, "str_0"),
    (12, tp_contract_example__ExampleStates__oh_0, "oh_0"),
    (13, tp_contract_example__ExampleStates__ch_0, "ch_0"),
];
const BALL: [(usize, Acc, &str); 10] = [
    (9, BallStates__pos_x, "pos_x"),
    (9, BallStates__pos_y, "pos_y"),
    (9, BallStates__pos_z, "pos_z"),
    (5, BallStates__euler_x, "euler_x"),
    (5, BallStates__euler_y, "euler_y"),
    (5, BallStates__euler_z, "euler_z"),
    (9, BallStates__scale_x, "scale_x"),
    (9, BallStates__scale_y, "scale_y"),
    (9, BallStates__scale_z, "scale_z"),
    (3, BallStates__color, "color"),
];
const NAMES: [&str; 3] = ["ExampleContract", "BallContract", "AllContract"];

unsafe fn baseline<'a>(b: P) -> &'a Baseline {
    &*(b as *const Baseline)
}
unsafe fn baseline_mut<'a>(b: P) -> &'a mut Baseline {
    &mut *(b as *mut Baseline)
}
unsafe fn oh(p: P) -> ObjectHandle {
    *(p as *const ObjectHandle)
}
unsafe fn ch(p: P) -> ContractDataHandle {
    *(p as *const ContractDataHandle)
}
fn boxed<T>(x: T) -> P {
    Box::into_raw(Box::new(x)) as P
}
unsafe fn utf8<'a>(s: Slice<u8>) -> Result<&'a str, String> {
    std::str::from_utf8(std::slice::from_raw_parts(s.ptr, s.len)).map_err(|e| format!("not UTF-8: {e}"))
}

struct Obj {
    h: P,
    st: Vec<Val>,
    chans: Vec<Frames>,
}
struct Reg {
    c: P,
    objs: Vec<Obj>,
}
struct Bl {
    b: P,
    kind: u8,
    regs: [Option<Reg>; 3],
}
/// An owned thing on its own.
enum Own {
    State(usize, P, Val),
    Frame(usize, P, (Val, u64)),
    Frames(usize, CVec, Frames),
    Chan(usize, P, Frames),
    Value(usize, P, Val),
}
/// A handle or id that no longer denotes anything, still owned by the client.
enum Dead {
    State(usize, P),
    Chan(usize, P),
    Obj(P),
    Contract(P),
    Sid(usize, P),
    Cid(usize, P),
}

struct World {
    bl: Vec<Bl>,
    own: Vec<Own>,
    dead: Vec<(usize, u64, Dead)>, // (baseline, its incarnation)
    inc: Vec<u64>,
    next_inc: u64,
    log: Vec<String>,
    calls: u64,
    reads: u64,
    forks: u64,
    sig: u64,
    fork_left: u32,
}

fn ty_of(kind: usize, f: usize) -> usize {
    match kind {
        0 => EX[f].0,
        1 => BALL[f].0,
        _ => f,
    }
}
fn n_fields(kind: usize) -> usize {
    [9, 10, 14][kind]
}
fn field_name(kind: usize, f: usize) -> String {
    match kind {
        0 => EX[f].2.into(),
        1 => BALL[f].2.into(),
        _ => format!("state {}", TYPE_NAMES[f]),
    }
}

fn gen_string(r: &mut Rng) -> String {
    let n = match r.below(if cfg!(miri) { 8 } else { 160 }) {
        0..=39 if !cfg!(miri) => 0,
        40..=79 => 1,
        80..=119 => r.below(8),
        120 => r.below(700),
        121 if r.chance(1, 25) => 20_000 + r.below(50_000),
        0 | 1 => 0,
        2 | 3 => 1,
        _ => r.below(if cfg!(miri) { 20 } else { 120 }),
    };
    (0..n)
        .map(|_| loop {
            let c = match r.below(6) {
                0 => r.below(128) as u32,
                1 => r.below(0x800) as u32,
                2 => *r.pick(&[0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x10ffff]),
                3 => 0x10000 + r.below(0x100000) as u32,
                _ => r.below(0x110000) as u32,
            };
            if let Some(c) = char::from_u32(c) {
                return c;
            }
        })
        .collect()
}
fn gen(ty: usize, r: &mut Rng) -> Val {
    if ty == 11 {
        Val { ty, list: false, cells: vec![Cell::Str(gen_string(r))] }
    } else {
        gen_val(ty, false, r)
    }
}
fn gen_frames_any(ty: usize, long: usize, r: &mut Rng) -> Frames {
    let n = match r.below(if cfg!(miri) { 12 } else { 150 }) {
        0..=1 => 0,
        2..=25 if !cfg!(miri) => r.below(40),
        26 if ty != 11 && r.chance(1, long) => 250 + r.below(1200),
        _ => r.below(5),
    };
    (0..n)
        .map(|_| {
            let t = match r.below(8) {
                0 => f64::INFINITY,
                1 => f64::NEG_INFINITY,
                2 => -0.0,
                3 => 0.0,
                4 => r.below(3) as f64,
                _ => (r.next() as i32) as f64 / 7.0,
            };
            (gen(ty, r), t.to_bits())
        })
        .collect()
}
fn total(b: u64) -> i64 {
    let x = b as i64;
    x ^ (((x >> 63) as u64) >> 1) as i64
}
/// The same keyframes, in time order.
fn frames_match(got: &Frames, want: &Frames) -> Res {
    ensure!(got.windows(2).all(|w| f64::from_bits(w[0].1) <= f64::from_bits(w[1].1)), "keyframes are not in time order: {got:?}");
    let norm = |f: &Frames| {
        let mut f = f.clone();
        f.sort_by_key(|(v, t)| (total(*t), report::h64(v)));
        f
    };
    ensure!(norm(got) == norm(want), "keyframes are {got:?}, should be {want:?}");
    Ok(())
}

unsafe fn make_frames<T: CTy>(f: &Frames, r: &mut Rng) -> CVec {
    let mut v = T::rv_new();
    for (x, t) in f {
        let k = T::kf_new(T::from_val(x).v_new(r.chance(1, 2)), f64::from_bits(*t));
        T::rv_push(&mut v, k);
    }
    v
}
unsafe fn read_frame<T: CTy>(k: P) -> (Val, u64) {
    (T::v_read(T::kf_value(k)).val(), T::kf_time(k).to_bits())
}
unsafe fn read_chan<T: CTy>(c: P, muta: bool) -> Result<Frames, String> {
    let v = if muta { T::c_keyframes_mut(c) } else { T::c_keyframes(c) };
    let out = (0..v.len).map(|i| read_frame::<T>(*(v.ptr as *const P).add(i))).collect();
    if muta {
        T::c_keyframes_mut_drop(v)
    } else {
        T::c_keyframes_drop(v)
    }
    Ok(out)
}

/// The id of a field, as an owned value.
unsafe fn state_id(kind: usize, c: P, f: usize) -> P {
    match kind {
        0 => EX[f].1(tp_contract_example__ExampleContract__states(c)),
        1 => BALL[f].1(BallContract__states(c)),
        _ => {
            let h = (*(c as *const AllContract)).h;
            dispatch_prim!(f, T => boxed(StateId::<T>::new(f, h)))
        }
    }
}
unsafe fn chan_id(c: P, f: usize) -> P {
    let h = (*(c as *const AllContract)).h;
    dispatch_prim!(f, T => boxed(ChannelId::<T>::new(f, h)))
}
/// The contract's handle, owned.
unsafe fn handle_of(kind: usize, c: P) -> P {
    match kind {
        0 => tp_contract_example__ExampleContract__handle(c),
        1 => BallContract__handle(c),
        _ => boxed((*(c as *const AllContract)).h),
    }
}
unsafe fn contract_drop(kind: usize, c: P) {
    match kind {
        0 => tp_contract_example__ExampleContract__drop(c),
        1 => BallContract__drop(c),
        _ => drop(Box::from_raw(c as *mut AllContract)),
    }
}

unsafe fn check_state<T: CTy>(b: P, kind: usize, reg: P, f: usize, o: P, want: &Val) -> Res {
    let id = state_id(kind, reg, f);
    let c = T::sid_contract(id);
    let hb = handle_of(kind, reg);
    let (got, own) = (ch(c), ch(hb));
    tp_client__contract__ContractDataHandle__drop(c);
    tp_client__contract__ContractDataHandle__drop(hb);
    ensure!(got == own, "the id of {} names contract {got:?}, not {own:?}", field_name(kind, f));
    let h = T::b_bind_state(b, id, o);
    let rh = *(h as *const StateHandle<T>);
    let rust = baseline(b).state(rh).map_err(|e| format!("Rust does not know the handle bound through C: {e}"))?.value.val();
    let s = T::b_state(b, h);
    let v = T::v_read(T::s_value(s)).val();
    let sm = T::b_state_mut(b, h);
    let vm = T::v_read(T::s_value(sm)).val();
    let bound = baseline(b).bind_state(*(id as *const StateId<T>), oh(o)).map_err(|e| format!("Rust refuses a binding C makes: {e}"))?;
    T::sh_drop(h);
    T::sid_drop(id);
    ensure!(bound == rh, "C and Rust bind {} differently", field_name(kind, f));
    ensure!(&v == want, "{}.{} reads {v:?} through C, should be {want:?}", NAMES[kind], field_name(kind, f));
    ensure!(&vm == want, "{}.{} reads {vm:?} through C (mutable), should be {want:?}", NAMES[kind], field_name(kind, f));
    ensure!(&rust == want, "{}.{} reads {rust:?} through Rust, should be {want:?}", NAMES[kind], field_name(kind, f));
    Ok(())
}
unsafe fn check_chan<T: CTy>(b: P, reg: P, f: usize, o: P, want: &Frames) -> Res {
    let id = chan_id(reg, f);
    let c = T::cid_contract(id);
    let got = ch(c);
    tp_client__contract__ContractDataHandle__drop(c);
    ensure!(got == (*(reg as *const AllContract)).h, "a channel id names another contract");
    let h = T::b_bind_channel(b, id, o);
    let rh = *(h as *const ChannelHandle<T>);
    let rust = chan_frames(baseline(b).channel(rh).map_err(|e| format!("Rust does not know the channel bound through C: {e}"))?);
    let a = read_chan::<T>(T::b_channel(b, h), false)?;
    let m = read_chan::<T>(T::b_channel_mut(b, h), true)?;
    T::ch_drop(h);
    T::cid_drop(id);
    frames_match(&a, want)?;
    frames_match(&m, want)?;
    frames_match(&rust, want)
}

enum Death {
    Died,
    Refused,
    Returned,
    Sanitizer,
}
/// Runs a call that must not succeed, in a process of its own. `f` returns
/// whether the call gave something.
#[cfg(not(miri))]
fn in_child(f: impl FnOnce() -> bool) -> Death {
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
        fn _exit(c: i32) -> !;
        fn close(fd: i32) -> i32;
        fn open(p: *const i8, f: i32) -> i32;
    }
    unsafe {
        let pid = fork();
        if pid == 0 {
            close(1);
            close(2);
            open(b"/dev/null\0".as_ptr() as *const i8, 1);
            open(b"/dev/null\0".as_ptr() as *const i8, 1);
            let gave = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            _exit(match gave {
                Ok(true) => 42,
                Ok(false) => 43,
                Err(_) => 44,
            })
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        match st {
            s if s & 0x7f != 0 => Death::Died,
            s => match (s >> 8) & 0xff {
                42 => Death::Returned,
                43 | 44 => Death::Refused,
                77 => Death::Sanitizer,
                _ => Death::Died,
            },
        }
    }
}
#[cfg(miri)]
fn in_child(_: impl FnOnce() -> bool) -> Death {
    Death::Died
}

impl World {
    fn new(forks: u32) -> Self {
        World {
            bl: vec![], own: vec![], dead: vec![], inc: vec![], next_inc: 0, log: vec![],
            calls: 0, reads: 0, forks: 0, sig: 0, fork_left: forks,
        }
    }
    fn note(&mut self, s: String) {
        self.sig = report::h64((self.sig, &s));
        self.log.push(s);
    }

    unsafe fn op_baseline(&mut self, r: &mut Rng) -> Res {
        if self.bl.len() < 2 || (self.bl.len() < 4 && r.chance(1, 2)) {
            let kind = r.below(2) as u8;
            let b = tp_client__baseline__Baseline__new(kind);
            ensure!(tp_client__baseline__Baseline__kind(b) == kind, "a new baseline has another kind than asked for");
            ensure!(
                baseline(b).kind() == if kind == 0 { BaselineKind::Main } else { BaselineKind::Fork },
                "C and Rust see different kinds"
            );
            self.bl.push(Bl { b, kind, regs: [None, None, None] });
            self.inc.push(self.next_inc);
            self.next_inc += 1;
            self.note(format!("new baseline {kind}"));
        } else {
            let i = r.below(self.bl.len());
            let bl = self.bl.swap_remove(i);
            let inc = self.inc.swap_remove(i);
            // its remaining handles outlive it
            let first = r.chance(1, 2);
            if first {
                tp_client__baseline__Baseline__drop(bl.b);
            }
            for (k, reg) in bl.regs.into_iter().enumerate() {
                if let Some(reg) = reg {
                    for o in reg.objs {
                        tp_client__object__ObjectHandle__drop(o.h);
                    }
                    contract_drop(k, reg.c);
                }
            }
            if !first {
                tp_client__baseline__Baseline__drop(bl.b);
            }
            // they can never be used again
            for (_, inc_, d) in std::mem::take(&mut self.dead) {
                if inc_ == inc {
                    drop_dead(d);
                } else {
                    self.dead.push((0, inc_, d));
                }
            }
            self.note(format!("drop baseline {i}"));
        }
        Ok(())
    }

    unsafe fn op_register(&mut self, r: &mut Rng) -> Res {
        if self.bl.is_empty() {
            return Ok(());
        }
        let (i, k) = (r.below(self.bl.len()), r.below(3));
        if self.bl[i].regs[k].is_some() {
            return Ok(());
        }
        let b = self.bl[i].b;
        let c = match k {
            0 => tp_contract_example__ExampleContract__register(b),
            1 => BallContract__register(b),
            _ => boxed(baseline_mut(b).register_contract::<AllContract>().map_err(|e| format!("{e}"))?),
        };
        self.bl[i].regs[k] = Some(Reg { c, objs: vec![] });
        self.note(format!("register {} in {i}", NAMES[k]));
        self.check_contract(i, k)
    }

    /// What the interface says about a registration.
    unsafe fn check_contract(&mut self, i: usize, k: usize) -> Res {
        let bl = &self.bl[i];
        let reg = bl.regs[k].as_ref().unwrap();
        let h = handle_of(k, reg.c);
        let cd = tp_client__baseline__Baseline__contract_data(bl.b, h);
        let id = tp_client__contract__ContractData__id(cd);
        let name = utf8(tp_client__contract__ContractId__name(id))?.to_string();
        let v = tp_client__contract__ContractId__version(id);
        let want = [
            <tp_contract_example::ExampleContract as Contract>::ID,
            <unity_states::BallContract as Contract>::ID,
            AllContract::ID,
        ][k];
        ensure!(
            (name.as_str(), (v.major, v.minor, v.patch)) == (want.name, want.version),
            "the contract is {name:?} {v:?} through C, should be {want:?}"
        );
        let list = tp_client__contract__ContractData__objects(cd);
        let mut got: Vec<(usize, u64)> = (0..list.len).map(|j| raw(*(list.ptr as *const ObjectHandle).add(j))).collect();
        tp_client__contract__ContractData__objects_drop(list);
        let mut should: Vec<(usize, u64)> = reg.objs.iter().map(|o| raw(oh(o.h))).collect();
        got.sort();
        should.sort();
        ensure!(got == should, "{} lists objects {got:?} through C, should be {should:?}", NAMES[k]);
        let rc = baseline(bl.b).contract_data(ch(h)).map_err(|e| format!("{e}"))?;
        ensure!(rc as *const _ as P == cd, "C and Rust see different contract data");
        tp_client__contract__ContractDataHandle__drop(h);
        self.calls += 7;
        Ok(())
    }

    fn pick_reg(&self, r: &mut Rng) -> Option<(usize, usize)> {
        let all: Vec<_> = (0..self.bl.len()).flat_map(|i| (0..3).map(move |k| (i, k))).filter(|(i, k)| self.bl[*i].regs[*k].is_some()).collect();
        (!all.is_empty()).then(|| *r.pick(&all))
    }
    fn pick_obj(&self, r: &mut Rng) -> Option<(usize, usize, usize)> {
        let mut all = vec![];
        for (i, b) in self.bl.iter().enumerate() {
            for (k, g) in b.regs.iter().enumerate() {
                if let Some(g) = g {
                    all.extend((0..g.objs.len()).map(|o| (i, k, o)));
                }
            }
        }
        (!all.is_empty()).then(|| *r.pick(&all))
    }

    unsafe fn op_unregister(&mut self, r: &mut Rng) -> Res {
        let Some((i, k)) = self.pick_reg(r) else { return Ok(()) };
        if k == 0 {
            return Ok(()); // the interface has no function for it
        }
        let inc = self.inc[i];
        let reg = self.bl[i].regs[k].take().unwrap();
        for f in 0..2 {
            let f = (f * 5) % n_fields(k);
            self.dead.push((i, inc, Dead::Sid(ty_of(k, f), state_id(k, reg.c, f))));
        }
        let h = handle_of(k, reg.c);
        self.dead.push((i, inc, Dead::Contract(boxed(ch(h)))));
        if k == 1 {
            BallContract__unregister(self.bl[i].b, h);
        } else {
            self.dead.push((i, inc, Dead::Cid(3, chan_id(reg.c, 3))));
            let r = baseline_mut(self.bl[i].b).unregister_contract::<AllContract>(ch(h));
            tp_client__contract__ContractDataHandle__drop(h);
            r.map_err(|e| format!("{e}"))?;
        }
        for o in reg.objs {
            self.dead.push((i, inc, Dead::Obj(o.h)));
        }
        contract_drop(k, reg.c);
        self.note(format!("unregister {} in {i}", NAMES[k]));
        Ok(())
    }

    unsafe fn op_create(&mut self, r: &mut Rng) -> Res {
        let Some((i, k)) = self.pick_reg(r) else { return Ok(()) };
        let b = self.bl[i].b;
        let c = self.bl[i].regs[k].as_ref().unwrap().c;
        let st: Vec<Val> = (0..n_fields(k)).map(|f| gen(ty_of(k, f), r)).collect();
        let alt = r.chance(1, 2);
        let mut chans = vec![];
        macro_rules! v {
            ($t:ty, $i:expr) => {
                <$t as Prop>::from_val(&st[$i])
            };
        }
        let h = match k {
            0 => tp_contract_example__ExampleContract__object_create(
                c, b, v!(u8, 0), v!(u8, 1), v!(i8, 2), v!(i8, 3), v!(f32, 4), v!(f32, 5),
                v!(String, 6).v_new(alt), v!(ObjectHandle, 7).v_new(alt), v!(ContractDataHandle, 8).v_new(alt),
            ),
            1 => BallContract__object_create(
                b, c, v!(f32, 0), v!(f32, 1), v!(f32, 2), v!(i16, 3), v!(i16, 4), v!(i16, 5), v!(f32, 6), v!(f32, 7),
                v!(f32, 8), v!(u64, 9),
            ),
            _ => {
                chans = (0..14).map(|t| gen_frames_any(t, 40, r)).collect();
                let o = baseline_mut(b)
                    .object_create(
                        &*(c as *const AllContract),
                        st.iter().map(to_dyn),
                        chans.iter().enumerate().map(|(t, f)| to_dyn_chan(t, false, f)),
                    )
                    .map_err(|e| format!("{e}"))?;
                boxed(o)
            }
        };
        ensure!(baseline(b).object(oh(h)).is_ok(), "Rust does not know an object created through C");
        let ob = tp_client__baseline__Baseline__object(b, h);
        let om = tp_client__baseline__Baseline__object_mut(b, h);
        ensure!(ob == om && ob as *const u8 == baseline(b).object(oh(h)).unwrap() as *const _ as *const u8, "C and Rust see different objects");
        self.bl[i].regs[k].as_mut().unwrap().objs.push(Obj { h, st, chans });
        self.note(format!("create {} in {i}", NAMES[k]));
        let n = self.bl[i].regs[k].as_ref().unwrap().objs.len() - 1;
        self.check_object(i, k, n)
    }

    unsafe fn check_object(&mut self, i: usize, k: usize, n: usize) -> Res {
        let b = self.bl[i].b;
        let reg = self.bl[i].regs[k].as_ref().unwrap();
        let o = &reg.objs[n];
        for (f, want) in o.st.iter().enumerate() {
            dispatch_prim!(ty_of(k, f), T => check_state::<T>(b, k, reg.c, f, o.h, want))?;
        }
        for (f, want) in o.chans.iter().enumerate() {
            dispatch_prim!(f, T => check_chan::<T>(b, reg.c, f, o.h, want))?;
        }
        self.reads += (o.st.len() + o.chans.len()) as u64;
        self.calls += 10 * (o.st.len() + o.chans.len()) as u64;
        Ok(())
    }

    unsafe fn op_remove(&mut self, r: &mut Rng) -> Res {
        let Some((i, k, n)) = self.pick_obj(r) else { return Ok(()) };
        let b = self.bl[i].b;
        let inc = self.inc[i];
        let reg = self.bl[i].regs[k].as_mut().unwrap();
        let o = reg.objs.swap_remove(n);
        // keep some bound handles of it
        for _ in 0..2 {
            let f = r.below(n_fields(k));
            let ty = ty_of(k, f);
            let id = state_id(k, reg.c, f);
            let h = dispatch_prim!(ty, T => { let h = T::b_bind_state(b, id, o.h); T::sid_drop(id); h });
            self.dead.push((i, inc, Dead::State(ty, h)));
        }
        if k == 2 {
            let f = r.below(14);
            let id = chan_id(reg.c, f);
            let h = dispatch_prim!(f, T => { let h = T::b_bind_channel(b, id, o.h); T::cid_drop(id); h });
            self.dead.push((i, inc, Dead::Chan(f, h)));
        }
        self.dead.push((i, inc, Dead::Obj(boxed(oh(o.h)))));
        let was = oh(o.h);
        match k {
            0 => tp_contract_example__ExampleContract__object_remove(b, o.h),
            1 => BallContract__object_remove(b, o.h),
            _ => {
                let res = baseline_mut(b).object_remove::<AllContract>(oh(o.h));
                tp_client__object__ObjectHandle__drop(o.h);
                res.map_err(|e| format!("{e}"))?;
            }
        }
        ensure!(baseline(b).object(was).is_err(), "an object removed through C is still there");
        self.note(format!("remove {} {n} in {i}", NAMES[k]));
        self.check_contract(i, k)
    }

    unsafe fn op_write(&mut self, r: &mut Rng) -> Res {
        let Some((i, k, n)) = self.pick_obj(r) else { return Ok(()) };
        let b = self.bl[i].b;
        let f = r.below(n_fields(k));
        let mut v = gen(ty_of(k, f), r);
        let reg = self.bl[i].regs[k].as_mut().unwrap();
        if r.chance(1, 4) {
            // what it holds already
            v = reg.objs[n].st[f].clone();
        }
        let id = state_id(k, reg.c, f);
        let o = &mut reg.objs[n];
        let alt = r.chance(1, 2);
        dispatch_prim!(ty_of(k, f), T => {
            let h = T::b_bind_state(b, id, o.h);
            let s = T::b_state_mut(b, h);
            let x = T::from_val(&v).v_new(alt);
            if r.chance(1, 3) {
                // the handle is not needed any more once the state is borrowed
                T::sh_drop(h);
                T::s_set(s, x);
            } else {
                T::s_set(s, x);
                T::sh_drop(h);
            }
            T::sid_drop(id);
        });
        o.st[f] = v;
        self.note(format!("write {}.{} of {n} in {i}", NAMES[k], field_name(k, f)));
        self.check_object(i, k, n)
    }

    unsafe fn op_own(&mut self, r: &mut Rng) -> Res {
        let ty = r.below(14);
        let alt = r.chance(1, 2);
        let what = r.below(5);
        self.note(format!("make {what} of {}", TYPE_NAMES[ty]));
        let made = dispatch_prim!(ty, T => match what {
            0 => {
                let v = gen(ty, r);
                Own::State(ty, T::s_new(T::from_val(&v).v_new(alt)), v)
            }
            1 => {
                let f = (gen(ty, r), r.next());
                Own::Frame(ty, T::kf_new(T::from_val(&f.0).v_new(alt), f64::from_bits(f.1)), f)
            }
            2 => {
                let f = gen_frames_any(ty, 2, r);
                Own::Frames(ty, make_frames::<T>(&f, r), f)
            }
            3 => {
                let f = gen_frames_any(ty, 2, r);
                Own::Chan(ty, T::c_new(make_frames::<T>(&f, r)), f)
            }
            _ => {
                let v = gen(ty, r);
                Own::Value(ty, T::from_val(&v).v_new(alt), v)
            }
        });
        self.own.push(made);
        let n = self.own.len() - 1;
        self.check_own(n, r)
    }

    unsafe fn op_use(&mut self, r: &mut Rng) -> Res {
        if self.own.is_empty() {
            return Ok(());
        }
        let n = r.below(self.own.len());
        self.note(format!("use {n}"));
        self.check_own(n, r)?;
        if r.chance(1, 2) {
            let o = self.own.swap_remove(n);
            // hand on to a call that takes ownership, or release
            match o {
                Own::Value(ty, p, v) if r.chance(1, 2) => self.own.push(dispatch_prim!(ty, T => Own::State(ty, T::s_new(p), v))),
                Own::Frames(ty, p, f) if r.chance(1, 2) => self.own.push(dispatch_prim!(ty, T => Own::Chan(ty, T::c_new(p), f))),
                o => drop_own(o),
            }
        }
        Ok(())
    }

    unsafe fn check_own(&mut self, n: usize, r: &mut Rng) -> Res {
        self.reads += 1;
        match &mut self.own[n] {
            Own::State(ty, s, v) => dispatch_prim!(*ty, T => {
                let got = T::v_read(T::s_value(*s)).val();
                ensure!(&got == v, "a state of {} reads {got:?}, should be {v:?}", T::NAME);
                let rust = (*(*s as *const State<T>)).value.val();
                ensure!(&rust == v, "Rust reads {rust:?} in a state, should be {v:?}");
                if r.chance(1, 2) {
                    if !r.chance(1, 4) {
                        *v = gen(*ty, r);
                    }
                    T::s_set(*s, T::from_val(v).v_new(r.chance(1, 2)));
                    let got = T::v_read(T::s_value(*s)).val();
                    ensure!(&got == v, "a state of {} reads {got:?} after writing {v:?}", T::NAME);
                }
            }),
            Own::Frame(ty, k, f) => dispatch_prim!(*ty, T => {
                let got = read_frame::<T>(*k);
                ensure!(&got == f, "a keyframe of {} reads {got:?}, should be {f:?}", T::NAME);
            }),
            Own::Frames(ty, v, f) => dispatch_prim!(*ty, T => {
                ensure!(v.len == f.len(), "a list of {} keyframes has {}", f.len(), v.len);
                for i in 0..f.len() {
                    let got = read_frame::<T>(T::rv_get(v, i));
                    ensure!(got == f[i], "keyframe {i} of a list is {got:?}, should be {:?}", f[i]);
                }
                if r.chance(1, 2) {
                    let x = (gen(*ty, r), (r.below(1000) as f64).to_bits());
                    let k = T::kf_new(T::from_val(&x.0).v_new(r.chance(1, 2)), f64::from_bits(x.1));
                    if f.is_empty() || r.chance(1, 2) {
                        T::rv_push(v, k);
                        f.push(x);
                    } else {
                        let i = r.below(f.len());
                        T::rv_set(v, i, k);
                        f[i] = x;
                    }
                    ensure!(v.len == f.len(), "a list of {} keyframes has {}", f.len(), v.len);
                    for i in 0..f.len() {
                        let got = read_frame::<T>(T::rv_get(v, i));
                        ensure!(got == f[i], "keyframe {i} of a list is {got:?}, should be {:?}", f[i]);
                    }
                }
            }),
            Own::Chan(ty, c, f) => dispatch_prim!(*ty, T => {
                frames_match(&read_chan::<T>(*c, false)?, f)?;
                frames_match(&read_chan::<T>(*c, true)?, f)?;
                frames_match(&chan_frames(&*(*c as *const Channel<T>)), f)?;
            }),
            Own::Value(ty, p, v) => dispatch_prim!(*ty, T => {
                let got = T::v_read(*p).val();
                ensure!(&got == v, "a value of {} reads {got:?}, should be {v:?}", T::NAME);
            }),
        }
        Ok(())
    }

    /// Calls that must not succeed.
    unsafe fn op_hostile(&mut self, r: &mut Rng, mode: &str) -> Res {
        if self.fork_left == 0 {
            return Ok(());
        }
        let (what, d) = match r.below(8) {
            0..=3 => {
                if self.dead.is_empty() {
                    return Ok(());
                }
                let n = r.below(self.dead.len());
                let (_, inc, d) = &self.dead[n];
                let Some(i) = self.inc.iter().position(|x| x == inc) else { return Ok(()) };
                let b = self.bl[i].b;
                match d {
                    Dead::State(ty, h) => ("a state handle of a removed object was accepted", dispatch_prim!(*ty, T => match r.below(2) {
                        0 => in_child(|| !T::b_state(b, *h).is_null()),
                        _ => in_child(|| !T::b_state_mut(b, *h).is_null()),
                    })),
                    Dead::Chan(ty, h) => ("a channel handle of a removed object was accepted", dispatch_prim!(*ty, T => match r.below(2) {
                        0 => in_child(|| !T::b_channel(b, *h).is_null()),
                        _ => in_child(|| !T::b_channel_mut(b, *h).is_null()),
                    })),
                    Dead::Obj(h) => match r.below(5) {
                        0 => ("the handle of a removed object was accepted", in_child(|| !tp_client__baseline__Baseline__object(b, *h).is_null())),
                        1 => ("the handle of a removed object was accepted", in_child(|| !tp_client__baseline__Baseline__object_mut(b, *h).is_null())),
                        2 => ("removing a removed object changed something", in_child(|| { let n = counts(b); tp_contract_example__ExampleContract__object_remove(b, *h); n != counts(b) })),
                        3 => ("removing a removed object changed something", in_child(|| { let n = counts(b); BallContract__object_remove(b, *h); n != counts(b) })),
                        _ => match self.bl[i].regs.iter().position(|x| x.is_some()) {
                            Some(k) => {
                                let c = self.bl[i].regs[k].as_ref().unwrap().c;
                                let f = r.below(n_fields(k));
                                ("a field of a removed object was bound", in_child(|| { let id = state_id(k, c, f); dispatch_prim!(ty_of(k, f), T => !T::b_bind_state(b, id, *h).is_null()) }))
                            }
                            None => return Ok(()),
                        },
                    },
                    Dead::Contract(h) => match r.below(2) {
                        0 => ("the handle of an unregistered contract was accepted", in_child(|| !tp_client__baseline__Baseline__contract_data(b, *h).is_null())),
                        _ => ("unregistering through a stale handle changed something", in_child(|| { let n = counts(b); BallContract__unregister(b, *h); n != counts(b) })),
                    },
                    Dead::Sid(ty, id) => {
                        let Some(o) = self.bl[i].regs.iter().flatten().flat_map(|g| &g.objs).next() else { return Ok(()) };
                        ("a field of an unregistered contract was bound", dispatch_prim!(*ty, T => in_child(|| !T::b_bind_state(b, *id, o.h).is_null())))
                    }
                    Dead::Cid(ty, id) => {
                        let Some(o) = self.bl[i].regs.iter().flatten().flat_map(|g| &g.objs).next() else { return Ok(()) };
                        ("a channel of an unregistered contract was bound", dispatch_prim!(*ty, T => in_child(|| !T::b_bind_channel(b, *id, o.h).is_null())))
                    }
                }
            }
            4 => {
                // a field of one contract on an object of another
                let (Some((i, k, n)), Some((j, l))) = (self.pick_obj(r), self.pick_reg(r)) else { return Ok(()) };
                if i != j || k == l {
                    return Ok(());
                }
                let b = self.bl[i].b;
                let o = self.bl[i].regs[k].as_ref().unwrap().objs[n].h;
                let c = self.bl[i].regs[l].as_ref().unwrap().c;
                let f = r.below(n_fields(l));
                ("a field of another contract was bound", in_child(|| { let id = state_id(l, c, f); dispatch_prim!(ty_of(l, f), T => !T::b_bind_state(b, id, o).is_null()) }))
            }
            5 => {
                let Some((i, k, n)) = self.pick_obj(r) else { return Ok(()) };
                let b = self.bl[i].b;
                let o = self.bl[i].regs[k].as_ref().unwrap().objs[n].h;
                ("removing an object through another contract changed something", if k == 0 {
                    in_child(|| { let n = counts(b); BallContract__object_remove(b, o); n != counts(b) })
                } else {
                    in_child(|| { let n = counts(b); tp_contract_example__ExampleContract__object_remove(b, o); n != counts(b) })
                })
            }
            6 => {
                let Some((i, k)) = self.pick_reg(r) else { return Ok(()) };
                let b = self.bl[i].b;
                if k == 2 {
                    return Ok(());
                }
                ("a contract was registered twice", in_child(|| !match k {
                    0 => tp_contract_example__ExampleContract__register(b),
                    _ => BallContract__register(b),
                }.is_null()))
            }
            _ => {
                let n = self.own.iter().position(|o| matches!(o, Own::Frames(..)));
                let Some(n) = n else { return Ok(()) };
                let Own::Frames(ty, v, f) = &mut self.own[n] else { return Ok(()) };
                let past = f.len() + [0, 1, 7, usize::MAX / 2, usize::MAX - f.len()][r.below(5)];
                let x = gen(*ty, r);
                dispatch_prim!(*ty, T => match r.below(2) {
                    0 => ("a keyframe past the end was read", in_child(|| !T::rv_get(v, past).is_null())),
                    _ => ("a keyframe past the end was set", in_child(|| { let k = T::kf_new(T::from_val(&x).v_new(false), 0.0); T::rv_set(v, past, k); true })),
                })
            }
        };
        self.fork_left -= 1;
        self.forks += 1;
        self.note(format!("hostile: {what}"));
        match d {
            Death::Returned if mode == "c17" => Err(what.into()),
            Death::Sanitizer if mode == "c16" => Err(format!("memory error in a call that should have been refused ({what})")),
            _ => Ok(()),
        }
    }

    unsafe fn op_strings(&mut self, r: &mut Rng) -> Res {
        let s = gen_string(r);
        self.note(format!("string of {}", s.len()));
        let u: Vec<u16> = s.encode_utf16().collect();
        let a = rsharp__String__copy_utf8(Slice { ptr: s.as_ptr(), len: s.len() });
        let b = rsharp__String__copy_utf16(Slice { ptr: u.as_ptr(), len: u.len() });
        let va = rsharp__String__value(a);
        let vb = rsharp__String__value(b);
        let (ra, rb) = (utf8(va)?.to_string(), utf8(vb)?.to_string());
        ensure!(s.is_empty() || va.ptr != s.as_ptr(), "the string was not copied");
        rsharp__String__drop(a);
        rsharp__String__drop(b);
        ensure!(ra == s, "UTF-8 text {s:?} arrived as {ra:?}");
        ensure!(rb == s, "UTF-16 text {s:?} arrived as {rb:?}");
        // anything else is not text, and must not become a string that is not UTF-8
        if self.fork_left > 0 && r.chance(1, 6) {
            self.fork_left -= 1;
            self.forks += 1;
            let mut bad = s.into_bytes();
            let at = r.below(bad.len() + 1);
            bad.insert(at, *r.pick(&[0x80, 0xff, 0xc0, 0xed]));
            if std::str::from_utf8(&bad).is_err() {
                let d = in_child(|| {
                    let p = rsharp__String__copy_utf8(Slice { ptr: bad.as_ptr(), len: bad.len() });
                    let v = rsharp__String__value(p);
                    std::str::from_utf8(std::slice::from_raw_parts(v.ptr, v.len)).is_err()
                });
                ensure!(!matches!(d, Death::Returned), "bytes that are not UTF-8 became a string");
            }
        }
        Ok(())
    }

    unsafe fn step(&mut self, r: &mut Rng, mode: &str) -> Res {
        match r.below(40) {
            0..=1 => self.op_baseline(r),
            2..=4 => self.op_register(r),
            5 => self.op_unregister(r),
            6..=10 => self.op_create(r),
            11..=12 => self.op_remove(r),
            13..=17 => self.op_write(r),
            18..=24 => self.op_own(r),
            25..=31 => self.op_use(r),
            32..=34 => self.op_strings(r),
            35 => match self.pick_reg(r) {
                Some((i, k)) => self.check_contract(i, k),
                None => Ok(()),
            },
            36 => match self.pick_obj(r) {
                Some((i, k, n)) => {
                    self.note("read all".into());
                    self.check_object(i, k, n)
                }
                None => Ok(()),
            },
            _ => self.op_hostile(r, mode),
        }
    }

    /// The client releases everything, in any order.
    unsafe fn release(mut self, r: &mut Rng) {
        r.shuffle(&mut self.own);
        r.shuffle(&mut self.dead);
        let late = r.chance(1, 2);
        if late {
            for (_, _, d) in self.dead.drain(..) {
                drop_dead(d);
            }
        }
        for bl in self.bl.drain(..) {
            let _ = bl.kind;
            let first = r.chance(1, 2);
            if first {
                tp_client__baseline__Baseline__drop(bl.b);
            }
            for (k, g) in bl.regs.into_iter().enumerate() {
                if let Some(g) = g {
                    if r.chance(1, 2) {
                        contract_drop(k, g.c);
                        g.objs.into_iter().for_each(|o| tp_client__object__ObjectHandle__drop(o.h));
                    } else {
                        g.objs.into_iter().for_each(|o| tp_client__object__ObjectHandle__drop(o.h));
                        contract_drop(k, g.c);
                    }
                }
            }
            if !first {
                tp_client__baseline__Baseline__drop(bl.b);
            }
        }
        for (_, _, d) in self.dead.drain(..) {
            drop_dead(d);
        }
        for o in self.own.drain(..) {
            drop_own(o);
        }
    }
}

unsafe fn counts(b: P) -> (usize, usize) {
    let b = baseline(b);
    (b.iter_objects().count(), 0)
}
unsafe fn drop_own(o: Own) {
    match o {
        Own::State(t, p, _) => dispatch_prim!(t, T => T::s_drop(p)),
        Own::Frame(t, p, _) => dispatch_prim!(t, T => T::kf_drop(p)),
        Own::Frames(t, p, _) => dispatch_prim!(t, T => T::rv_drop(p)),
        Own::Chan(t, p, _) => dispatch_prim!(t, T => T::c_drop(p)),
        Own::Value(t, p, _) => dispatch_prim!(t, T => T::v_drop(p)),
    }
}
unsafe fn drop_dead(d: Dead) {
    match d {
        Dead::State(t, p) => dispatch_prim!(t, T => T::sh_drop(p)),
        Dead::Chan(t, p) => dispatch_prim!(t, T => T::ch_drop(p)),
        Dead::Obj(p) => tp_client__object__ObjectHandle__drop(p),
        Dead::Contract(p) => tp_client__contract__ContractDataHandle__drop(p),
        Dead::Sid(t, p) => dispatch_prim!(t, T => T::sid_drop(p)),
        Dead::Cid(t, p) => dispatch_prim!(t, T => T::cid_drop(p)),
    }
}

#[derive(Clone, Copy, Default)]
struct Stats {
    calls: u64,
    reads: u64,
    forks: u64,
    sig: u64,
    steps: u64,
}

/// One history. What it leaves behind is what it leaked.
fn history(seed: u64, case: u64, steps: usize, forks: u32, mode: &str, keep_log: Option<&mut Vec<String>>) -> Result<Stats, (String, Vec<String>)> {
    let mut r = Rng::new(seed, 5000 + case);
    let mut w = World::new(forks);
    unsafe {
        for s in 0..steps {
            mem::OP.store(1 + s as u32, Relaxed);
            let res = w.step(&mut r, mode);
            mem::OP.store(0, Relaxed);
            if let Err(e) = res {
                let log = std::mem::take(&mut w.log);
                return Err((e, log));
            }
        }
        let st = Stats { calls: w.calls, reads: w.reads, forks: w.forks, sig: w.sig, steps: steps as u64 };
        if let Some(l) = keep_log {
            *l = std::mem::take(&mut w.log);
        }
        mem::OP.store(900_000, Relaxed);
        w.release(&mut r);
        mem::OP.store(0, Relaxed);
        Ok(st)
    }
}

/// Lists and channels longer than 16 bits count.
fn long_lists(seed: u64) -> Res {
    let mut r = Rng::new(seed, 9);
    for ty in [0usize, r.below(14), 11] {
        let few: Vec<Val> = (0..8).map(|_| gen_val(ty, false, &mut r)).collect();
        let n = 65_537 + r.below(600);
        // each list is given in one order and read in the other
        let f: Frames = (0..n).map(|i| (few[i % 8].clone(), ((n - i) as f64).to_bits())).collect();
        unsafe {
            dispatch_prim!(ty, T => {
                let mut v = make_frames::<T>(&f, &mut r);
                ensure!(v.len == n, "a list of {n} keyframes has {}", v.len);
                for i in [0, 1, 255, 256, 65_535, 65_536, n - 1] {
                    let got = read_frame::<T>(T::rv_get(&mut v, i));
                    ensure!(got == f[i], "keyframe {i} of a long list is {got:?}, should be {:?}", f[i]);
                }
                let c = T::c_new(v);
                let mut got = read_chan::<T>(c, false)?;
                let again = read_chan::<T>(c, true)?;
                drop_own(Own::Chan(ty, c, vec![]));
                got.reverse();
                ensure!(got.len() == n && got == f, "a channel of {n} keyframes reads {} keyframes, or others", got.len());
                ensure!(again.len() == n, "a channel of {n} keyframes reads {} keyframes", again.len());
            });
        }
    }
    Ok(())
}

fn main() {
    let mode = std::env::var("VERIF_MODE").unwrap_or_else(|_| "c17".into());
    let mut rep = Report::new(
        if mode == "c16" { "C16" } else { "C17" },
        "a case is one random history of a C client that follows the ownership rules; distinct by what it did",
    );
    let cases = if cfg!(miri) { 2 } else if mode == "c16" { rep.scale(400, 4000) } else { rep.scale(1500, 12000) };
    let steps = if cfg!(miri) { 60 } else { 120 };
    // what is only allocated once is not a leak
    for w in 0..5 {
        let _ = guarded(|| history(77, w, steps, 0, &mode, None));
    }
    for case in 0..cases {
        if rep.only_case.map_or(false, |c| c != case) || rep.stop() {
            continue;
        }
        let forks = if case % 2 == 0 { 6 } else { 0 };
        let bad0 = (mem::BAD_FREES.load(SeqCst), mem::BAD_LAYOUTS.load(SeqCst));
        let seed = rep.seed;
        let before = mem::live();
        let out = guarded(|| history(seed, case, steps, forks, &mode, None));
        let after = mem::live();
        let bad1 = (mem::BAD_FREES.load(SeqCst), mem::BAD_LAYOUTS.load(SeqCst));
        match out {
            Ok(Ok(st)) => {
                rep.eval(st.sig, st.calls > 0);
                rep.count("histories", 1);
                rep.count("steps", st.steps);
                rep.count("field and value reads compared", st.reads);
                rep.count("calls that had to be refused, each in its own process", st.forks);
                if rep.samples.len() < 4 {
                    let mut l = vec![];
                    let _ = history(seed, case, steps, 0, &mode, Some(&mut l));
                    rep.sample(|| l.iter().take(40).cloned().collect::<Vec<_>>().join("; "));
                }
                if mode == "c16" {
                    if bad1 != bad0 {
                        let what = if bad1.0 != bad0.0 { "memory was released that was not live" } else { "memory was released with another size or alignment than it was obtained with" };
                        let mut l = vec![];
                        let _ = history(seed, case, steps, 0, &mode, Some(&mut l));
                        let op = mem::BAD_OP.load(SeqCst) as usize;
                        rep.violation(what, format!("{what}, first in step {op}"), [vec![format!("case {case}")], l].concat());
                    }
                    if after != before {
                        // an allocation that is made once only does not come again
                        let mut again = 0;
                        let mut l = vec![];
                        for _ in 0..2 {
                            let mut log = Vec::with_capacity(0);
                            let b = mem::live();
                            let _ = history(seed, case, steps, forks, &mode, None);
                            let a = mem::live();
                            if a != b {
                                again += 1;
                            }
                            let _ = history(seed, case, steps, 0, &mode, Some(&mut log));
                            l = log;
                        }
                        if again == 2 {
                            let (ops, n) = mem::live_since(1);
                            rep.violation(
                                "memory is not returned after everything was released",
                                format!("{} bytes in {} blocks remain after the client released everything (first blocks (step, size) of {n}: {ops:?})", after.bytes.wrapping_sub(before.bytes) as isize, after.blocks.wrapping_sub(before.blocks) as isize),
                                [vec![format!("case {case}")], l.iter().enumerate().map(|(i, s)| format!("{}: {s}", i + 1)).collect()].concat(),
                            );
                        }
                    }
                }
            }
            Ok(Err((e, log))) => {
                let key: String = e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                let memory = e.starts_with("memory error") || e.starts_with("bytes that are not UTF-8");
                if (mode == "c16") == memory {
                    rep.violation(key, e, [vec![format!("case {case}")], log].concat());
                } else {
                    rep.count("histories ended by another property", 1);
                }
            }
            Err(p) => {
                if mode == "c17" {
                    rep.violation("panic", format!("the history panicked: {p}"), vec![format!("case {case}")]);
                } else {
                    rep.count("histories ended by another property", 1);
                }
            }
        }
    }
    if rep.only_case.is_none() && !cfg!(miri) && std::env::var("NOLONG").is_err() {
        let seed = rep.seed;
        let bad = (mem::BAD_FREES.load(SeqCst), mem::BAD_LAYOUTS.load(SeqCst));
        let mut left = vec![];
        let mut fine = true;
        for _ in 0..3 {
            let before = mem::live();
            let res = guarded(|| long_lists(seed));
            fine &= matches!(res, Ok(Ok(())));
            match res {
                Ok(Ok(())) => rep.count("long lists", 3),
                Ok(Err(e)) if mode == "c17" => rep.violation("long lists", e, vec![]),
                Err(p) if mode == "c17" => rep.violation("long lists", format!("panic: {p}"), vec![]),
                _ => rep.count("histories ended by another property", 1),
            }
            let after = mem::live();
            left.push(after.bytes as i64 - before.bytes as i64);
        }
        if mode == "c16" {
            if bad != (mem::BAD_FREES.load(SeqCst), mem::BAD_LAYOUTS.load(SeqCst)) {
                rep.violation("memory of a long list was released wrongly", "memory of a long list was released wrongly", vec![]);
            }
            // (what stays the first time need not be a leak)
            if fine && left[1] > 0 && left[2] > 0 {
                rep.violation("memory of long lists is not returned", format!("{} bytes of long lists remain after everything was released", left[2]), vec![]);
            }
        }
    }
    rep.count("allocations watched", mem::ALLOCS.load(SeqCst));
    if mem::overflowed() {
        eprintln!("the table of live blocks is too small");
        std::process::exit(3);
    }
    rep.finish()
}
