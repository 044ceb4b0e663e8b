//! Parallel readers between write phases, baselines and engines that change
//! threads, batches from several threads, and plain histories: run natively,
//! under AddressSanitizer, and under Miri, which watches for undefined
//! behaviour and data races.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::thread;
use std::time::Duration;
use tp_client::action::property::*;
use tp_client::action::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::*;
use tp_client::engine::Engine;
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::Ticks;
use vcore::dispatch;
use vcore::report::h64;
use vcore::types::*;
use vcore::world::*;
use vcore::*;

/// What one object must show, as plain data that threads can share.
struct Seen {
    h: ObjectHandle,
    contract: ContractDataHandle,
    offset: i32,
    s: Vec<(usize, bool, (usize, u64), Val)>,
    c: Vec<(usize, bool, (usize, u64), Frames)>,
}
#[derive(Default)]
struct Snapshot {
    live: Vec<Seen>,
    dead: Vec<Seen>,
    regs: Vec<(ContractDataHandle, Option<(&'static str, usize)>)>,
}

fn snapshot(w: &World, i: usize) -> Snapshot {
    let m = &w.m[i];
    let mut out = Snapshot::default();
    for o in &m.objs {
        let k = &w.kinds[m.regs[o.reg].kind];
        let seen = Seen {
            h: o.h,
            contract: m.regs[o.reg].handle,
            offset: o.offset,
            s: k.states.iter().enumerate().map(|(f, (t, l))| (*t, *l, o.sh[f], o.s[f].clone())).collect(),
            c: k.chans.iter().enumerate().map(|(f, (t, l))| (*t, *l, o.ch[f], o.c[f].clone())).collect(),
        };
        if o.live {
            out.live.push(seen);
        } else {
            out.dead.push(seen);
        }
    }
    // keep what can still confuse: the last dead ones
    let n = out.dead.len();
    out.dead.drain(..n.saturating_sub(6));
    for (g, r) in m.regs.iter().enumerate() {
        let n = m.objs.iter().filter(|o| o.live && o.reg == g).count();
        out.regs.push((r.handle, r.live.then(|| (w.kinds[r.kind].id.name, n))));
    }
    out
}

/// One random look at a baseline that nobody writes to.
fn look(b: &Baseline, x: &Snapshot, r: &mut Rng) -> Result<&'static str, String> {
    let kind = r.below(12);
    if kind == 0 {
        let n = b.iter_objects().count();
        if n != x.live.len() {
            return Err(format!("iter_objects yields {n} objects, {} are alive", x.live.len()));
        }
        return Ok("traversals");
    }
    if kind == 1 && !x.regs.is_empty() {
        let (h, want) = &x.regs[r.below(x.regs.len())];
        return match (b.contract_data(*h), want) {
            (Ok(d), Some((name, n))) if d.id().name == *name && d.objects().len() == *n => Ok("contracts"),
            (Err(_), None) => Ok("contracts"),
            _ => Err("contract data differs from what was registered".into()),
        };
    }
    if kind == 2 && !x.dead.is_empty() {
        let o = &x.dead[r.below(x.dead.len())];
        if b.object(o.h).is_ok() {
            return Err("a removed object is there".into());
        }
        if !o.s.is_empty() {
            let (t, l, h, _) = &o.s[r.below(o.s.len())];
            let p = r.below(6);
            if let Ok(Ok(v)) = guarded(|| dispatch!(*t, *l, T => read_state::<T>(b, *h, p))) {
                return Err(format!("a state of a removed object reads {v:?}"));
            }
        }
        return Ok("dead handles");
    }
    if x.live.is_empty() {
        return Ok("nothing there");
    }
    let o = &x.live[r.below(x.live.len())];
    match b.object(o.h) {
        Ok(ob) if ob.contract() == o.contract && ob.time_warp().offset.as_millis() == o.offset => {}
        Ok(_) => return Err("an object shows other contents".into()),
        Err(e) => return Err(format!("a live object is not there: {e}")),
    }
    let (ns, nc) = (o.s.len(), o.c.len());
    if ns + nc == 0 {
        return Ok("objects");
    }
    let f = r.below(ns + nc);
    if f < ns {
        let (t, l, h, v) = &o.s[f];
        if kind == 3 {
            return match dispatch!(*t, *l, T => b.bind_state(StateId::<T>::new(f, o.contract), o.h).map(|x| raw(x)).ok()) {
                Some(x) if x == *h => Ok("binds"),
                x => Err(format!("state {f} binds to {x:?}, it was {h:?}")),
            };
        }
        let p = r.below(6);
        match dispatch!(*t, *l, T => read_state::<T>(b, *h, p)) {
            Ok(g) if g == *v => Ok("states"),
            Ok(g) => Err(format!("state {f} reads {g:?} by path {p}, the last write was {v:?}")),
            Err(e) => Err(format!("state {f} cannot be read by path {p}: {e}")),
        }
    } else {
        let f = f - ns;
        let (t, l, h, v) = &o.c[f];
        if kind == 3 {
            return match dispatch!(*t, *l, T => b.bind_channel(ChannelId::<T>::new(f, o.contract), o.h).map(|x| raw(x)).ok()) {
                Some(x) if x == *h => Ok("binds"),
                x => Err(format!("channel {f} binds to {x:?}, it was {h:?}")),
            };
        }
        let p = r.below(5);
        match dispatch!(*t, *l, T => read_chan::<T>(b, *h, p)) {
            Ok(g) if g == *v => Ok("channels"),
            Ok(_) => Err(format!("channel {f} reads other keyframes by path {p}")),
            Err(e) => Err(format!("channel {f} cannot be read by path {p}: {e}")),
        }
    }
}

struct Cfg {
    miri: bool,
    readers: usize,
    looks: usize,
    phases: usize,
    steps: usize,
}

type Counts = BTreeMap<&'static str, u64>;

fn add(c: &mut Counts, k: &'static str, n: u64) {
    *c.entry(k).or_insert(0) += n;
}

fn weights() -> Weights {
    Weights { reg: 4, unreg: 1, create: 8, create_bad: 2, remove: 4, remove_bad: 1, write: 14, bulk: 0 }
}

fn world(r: &mut Rng, cfg: &Cfg, big: bool) -> World {
    let mut w = World::new();
    if cfg.miri {
        // the contract with all types is slow there; it appears now and then
        w.use_kinds = if big { vec![0, 1] } else { vec![1, 3, 4, 6, 7, 2, 5].into_iter().filter(|_| r.chance(2, 3)).chain([1]).collect() };
        w.max_live = if big { 2 } else { 6 };
        w.dead_probes = 2;
    } else {
        w.max_live = 2 + r.below(20);
    }
    w
}

/// A history with audits only here and there.
fn history(r: &mut Rng, cfg: &Cfg, big: bool, counts: &mut Counts) -> Result<u64, String> {
    let mut w = world(r, cfg, big);
    let wt = weights();
    for n in 0..cfg.steps {
        let audit = if cfg.miri { n + 1 == cfg.steps } else { n % 5 == 4 };
        w.step(r, &wt, audit).map_err(|f| format!("{:?}: {}", f.props, f.msg))?;
    }
    for n in w.ops.values() {
        add(counts, "operations", *n);
    }
    add(counts, "field reads compared", w.reads);
    Ok(h64(w.states_seen.iter().fold(0u64, |a, b| a ^ b)))
}

/// Write phases by one thread, read phases by many.
fn readers(r: &mut Rng, cfg: &Cfg, big: bool, counts: &mut Counts) -> Result<u64, String> {
    let mut w = world(r, cfg, big);
    let wt = weights();
    let mut sig = vec![];
    for phase in 0..cfg.phases {
        for _ in 0..cfg.steps / cfg.phases + 1 {
            w.step(r, &wt, false).map_err(|f| format!("{:?}: {}", f.props, f.msg))?;
        }
        let which = r.below(2);
        let x = snapshot(&w, which);
        let b = w.realm.baseline(if which == 0 { BaselineKind::Main } else { BaselineKind::Fork });
        let n = 2 + r.below(cfg.readers - 1);
        let start = Barrier::new(n);
        let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
        let hot = r.chance(1, 3) && !x.live.is_empty();
        let order = AtomicU64::new(0);
        let outs: Vec<Result<Result<(Counts, Vec<u64>), String>, String>> = thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    let (x, start, order) = (&x, &start, &order);
                    s.spawn(move || {
                        guarded(|| {
                            let mut r = Rng::new(*seed, phase as u64);
                            let mut c = Counts::new();
                            let mut turns = vec![];
                            start.wait();
                            for i in 0..cfg.looks {
                                if i % 16 == 0 {
                                    turns.push(order.fetch_add(1, SeqCst));
                                }
                                add(&mut c, look(b, x, &mut r)?, 1);
                                if hot {
                                    // the same few things, by everybody, in a tight loop
                                    for k in 0..if cfg.miri { 2 } else { 200 } {
                                        let o = &x.live[(k + *seed as usize % 3) % x.live.len().min(3)];
                                        if b.object(o.h).map_err(|e| e.to_string())?.contract() != o.contract {
                                            return Err("an object shows another contract".to_string());
                                        }
                                        if let Some((t, l, h, v)) = o.s.get(k % 2) {
                                            let g = dispatch!(*t, *l, T => read_state::<T>(b, *h, 0))?;
                                            if g != *v {
                                                return Err(format!("a state reads {g:?}, the last write was {v:?}"));
                                            }
                                        }
                                    }
                                    add(&mut c, "rounds over the same few objects", 1);
                                }
                            }
                            Ok((c, turns))
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a reader died".into()))).collect()
        });
        for o in outs {
            match o {
                Ok(Ok((c, turns))) => {
                    for (k, v) in c {
                        add(counts, k, v);
                    }
                    sig.push(turns);
                }
                Ok(Err(e)) => return Err(format!("one of {n} parallel readers: {e}")),
                Err(p) => return Err(format!("one of {n} parallel readers panicked: {p}")),
            }
        }
        add(counts, "read phases", 1);
        add(counts, "readers", n as u64);
    }
    Ok(h64(sig))
}

/// A baseline that moves from thread to thread, and is dropped by the last.
fn moves(r: &mut Rng, cfg: &Cfg, counts: &mut Counts) -> Result<u64, String> {
    let kinds: Vec<Kind> = kinds();
    let ks = if cfg.miri { vec![1usize, 4] } else { vec![0usize, 1, 3, 4, 6, 7] };
    let mut b = Baseline::new(BaselineKind::Main);
    let mut x = Snapshot::default();
    let hops = if cfg.miri { 3 } else { 12 };
    let mut total = 0;
    for hop in 0..hops {
        let k = *r.pick(&ks);
        let (states, chans, register) = (kinds[k].states.clone(), kinds[k].chans.clone(), kinds[k].register);
        let seed = r.next();
        let looks = cfg.looks;
        let t = thread::spawn(move || {
            guarded(move || {
                let mut r = Rng::new(seed, hop);
                for _ in 0..looks {
                    look(&b, &x, &mut r)?;
                }
                if let Ok(reg) = register(&mut b) {
                    for _ in 0..2 {
                        let s: Vec<Val> = states.iter().map(|(t, l)| gen_val(*t, *l, &mut r)).collect();
                        let c: Vec<Frames> = chans.iter().map(|(t, l)| gen_frames(*t, *l, &mut r)).collect();
                        let ds: Vec<_> = s.iter().map(to_dyn).collect();
                        let dc: Vec<_> = c.iter().zip(&chans).map(|(f, (t, l))| to_dyn_chan(*t, *l, f)).collect();
                        let h = reg.create(&mut b, Box::new(ds.into_iter()), Box::new(dc.into_iter()))?;
                        let mut seen = Seen { h, contract: reg.handle(), offset: b.object(h).map_err(|e| e.to_string())?.time_warp().offset.as_millis(), s: vec![], c: vec![] };
                        for (f, ((t, l), v)) in states.iter().zip(s).enumerate() {
                            let raw_h = dispatch!(*t, *l, T => b.bind_state(StateId::<T>::new(f, reg.handle()), h).map(|x| raw(x)).map_err(|e| e.to_string()))?;
                            seen.s.push((*t, *l, raw_h, v));
                        }
                        for (f, ((t, l), v)) in chans.iter().zip(c).enumerate() {
                            let raw_h = dispatch!(*t, *l, T => b.bind_channel(ChannelId::<T>::new(f, reg.handle()), h).map(|x| raw(x)).map_err(|e| e.to_string()))?;
                            seen.c.push((*t, *l, raw_h, v));
                        }
                        x.live.push(seen);
                    }
                    x.regs.push((reg.handle(), b.contract_data(reg.handle()).ok().map(|d| (d.id().name, 2))));
                }
                // overwrite something by another thread than the one that wrote it
                if !x.live.is_empty() {
                    let i = r.below(x.live.len());
                    if let Some((t, l, h, v)) = x.live[i].s.first_mut() {
                        *v = gen_val(*t, *l, &mut r);
                        dispatch!(*t, *l, T => write_state::<T>(&mut b, *h, v, 0))?;
                    }
                }
                Ok::<_, String>((b, x))
            })
        });
        (b, x) = match t.join() {
            Ok(Ok(Ok(v))) => v,
            Ok(Ok(Err(e))) => return Err(format!("after {hop} moves between threads: {e}")),
            Ok(Err(p)) => return Err(format!("after {hop} moves between threads: panic: {p}")),
            Err(_) => return Err("a thread died".into()),
        };
        total += 1;
        add(counts, "moves between threads", 1);
    }
    thread::spawn(move || drop(b)).join().map_err(|_| "dropping a baseline on another thread panicked")?;
    Ok(h64((total, x.live.iter().map(|o| raw(o.h)).collect::<Vec<_>>())))
}

contract!(CEng, SEng { n: u64, text: String, list: Vec<String>, who: ObjectHandle }, ChEng { x: f32 }, "verif.eng", (0, 0, 1));

/// Senders of several threads, an engine that changes threads, readers between
/// the batches.
fn engine(r: &mut Rng, cfg: &Cfg, counts: &mut Counts) -> Result<u64, String> {
    let cap = *r.pick(&[None, Some(0), Some(1), Some(4)]);
    let (mut e, tx) = Engine::new(Realm::new(RealmID::new("verif".into())), cap);
    let b = e.realm_mut().baseline_mut(BaselineKind::Fork);
    let c: CEng = b.register_contract().map_err(|e| e.to_string())?;
    let v0 = vec![0u64.dyn_prop(), String::new().dyn_prop(), Vec::<String>::new().dyn_prop(), ohandle(0, 0).dyn_prop()];
    let ch0 = vec![to_dyn_chan(9, false, &gen_frames(9, false, r))];
    let o = b.object_create(&c, v0.into_iter(), ch0.into_iter()).map_err(|e| e.to_string())?;
    let n = b.bind_state(c.states().n(), o).map_err(|e| e.to_string())?;
    let text = b.bind_state(c.states().text(), o).map_err(|e| e.to_string())?;
    let list = b.bind_state(c.states().list(), o).map_err(|e| e.to_string())?;
    let who = b.bind_state(c.states().who(), o).map_err(|e| e.to_string())?;
    let senders = 2 + r.below(if cfg.miri { 2 } else { 4 });
    let each = if cfg.miri { 2 + r.below(3) } else { 60 };
    let mut ts = vec![];
    for s in 0..senders {
        let tx = tx.clone();
        ts.push(thread::spawn(move || {
            for i in 0..each {
                let w = |handle, data| Action::Property(PropertyAction::State(StateAction::Write { handle, data }));
                let id = (s * 1000 + i) as u64;
                let mut a = vec![
                    w(u64::dyn_shandle(n), id.dyn_prop()),
                    w(String::dyn_shandle(text), format!("{id}").dyn_prop()),
                    w(<Vec<String>>::dyn_shandle(list), vec![format!("{id}"); i % 4].dyn_prop()),
                    w(ObjectHandle::dyn_shandle(who), ohandle(s, i as u64).dyn_prop()),
                ];
                if i % 3 == 2 {
                    a.push(Action::Property(PropertyAction::State(StateAction::Assert { handle: String::dyn_shandle(text), data: "no".to_string().dyn_prop() })));
                }
                let c = Collaction::verif_new(a);
                let sent = match i % 3 {
                    0 => tx.send(c).is_ok(),
                    1 => tx.send_timeout(c, Duration::from_secs(600)).is_ok(),
                    _ => {
                        let mut c = Some(c);
                        loop {
                            match tx.try_send(c.take().unwrap()) {
                                Ok(()) => break true,
                                Err(e) => {
                                    let s = format!("{e:?}");
                                    c = Some(e.into_inner());
                                    if s.starts_with("Disconnected") {
                                        break false;
                                    }
                                    thread::yield_now();
                                }
                            }
                        }
                    }
                };
                if !sent {
                    return false;
                }
            }
            true
        }));
    }
    drop(tx);
    let want = senders * each;
    let mut got = 0;
    let mut next = vec![0usize; senders];
    let mut order = vec![];
    let mut last = (0u64, String::new(), 0usize);
    let mut back = vec![];
    while got < want {
        // a slice of the work on one thread, the next slice on another
        let slice = 1 + r.below(want);
        let t = thread::spawn(move || {
            guarded(move || {
                let mut res = vec![];
                for k in 0..slice.min(want - got) {
                    // two sides that only try never meet in a queue without room
                    let x = if k % 2 == 0 && cap != Some(0) {
                        loop {
                            match e.try_apply() {
                                Ok(x) => break x,
                                Err(f) if format!("{f:?}") == "Empty" => thread::yield_now(),
                                Err(f) => return Err(format!("{f:?} with batches outstanding")),
                            }
                        }
                    } else {
                        e.apply_timeout(Duration::from_secs(600)).map_err(|f| format!("{f:?} with batches outstanding"))?
                    };
                    let b = e.realm().baseline(BaselineKind::Fork);
                    let seen = (b[n].value, b[text].value.clone(), b[list].value.len(), raw(b[who].value));
                    res.push((x, seen));
                }
                *e.realm_mut().time_mut().ticks_mut() += Ticks::new(1);
                Ok((e, res))
            })
        });
        let res;
        (e, res) = match t.join() {
            Ok(Ok(Ok(x))) => x,
            Ok(Ok(Err(m))) => return Err(m),
            Ok(Err(p)) => return Err(format!("applying batches panicked: {p}")),
            Err(_) => return Err("the thread of an engine died".into()),
        };
        for (x, (n, text, list, who)) in res {
            got += 1;
            match x {
                Ok(c) => {
                    let (s, i) = (n as usize / 1000, n as usize % 1000);
                    if i % 3 == 2 || s >= senders || text != format!("{n}") || list != i % 4 || who != (s, i as u64) {
                        return Err(format!("after an accepted batch the fork shows {n} {text:?} {list} {who:?}"));
                    }
                    next[s] += 1;
                    order.push((s, i));
                    last = (n, text, list);
                    back.push(c);
                }
                Err(c) => {
                    if (n, text, list) != last {
                        return Err("a rejected batch left something behind".into());
                    }
                    if c.actions().len() != 5 {
                        return Err("a rejected batch came back with other actions".into());
                    }
                    back.push(c);
                }
            }
        }
        // several threads look at the realm between the slices
        let realm = e.realm();
        let l = &last;
        let ok = thread::scope(|s| {
            let hs: Vec<_> = (0..2).map(|_| s.spawn(move || guarded(|| {
                let b = realm.baseline(BaselineKind::Fork);
                b[n].value == l.0 && b[text].value == l.1 && b.iter_objects().count() == 1 && realm.baseline(BaselineKind::Main).iter_objects().count() == 0
            }))).collect();
            hs.into_iter().all(|h| matches!(h.join(), Ok(Ok(true))))
        });
        if !ok {
            return Err("threads that read an engine's realm do not see the last batch".into());
        }
    }
    for t in ts {
        if !t.join().map_err(|_| "a sender panicked")? {
            return Err("a send failed while the engine lives".into());
        }
    }
    for s in 0..senders {
        let ok = (0..each).filter(|i| i % 3 != 2).count();
        if next[s] != ok {
            return Err(format!("{} of {ok} batches of sender {s} were accepted", next[s]));
        }
        if !order.iter().filter(|(q, _)| *q == s).map(|(_, i)| i).is_sorted_strictly() {
            return Err(format!("batches of sender {s} were handled out of order"));
        }
    }
    add(counts, "batches through engines", want as u64);
    let t1 = thread::spawn(move || drop(back));
    let t2 = thread::spawn(move || drop(e));
    t1.join().map_err(|_| "dropping batches panicked")?;
    t2.join().map_err(|_| "dropping an engine panicked")?;
    Ok(h64(order))
}

trait Sorted {
    fn is_sorted_strictly(self) -> bool;
}
impl<'a, I: Iterator<Item = &'a usize>> Sorted for I {
    fn is_sorted_strictly(mut self) -> bool {
        let mut last = None;
        self.all(|x| {
            let ok = last.map_or(true, |l| l < *x);
            last = Some(*x);
            ok
        })
    }
}

fn main() {
    let mut rep = Report::new("C20", "Random histories of all operations; phases in which 2 to 8 threads read one baseline (all fields by all paths, binds, traversals, dead handles, and tight loops over the same few objects) between phases of writes; baselines and engines that change threads; batches sent by several threads. Run natively, under AddressSanitizer and under Miri. A case is one history, or the order in which threads took their turns");
    let miri = cfg!(miri);
    let cfg = if miri {
        Cfg { miri, readers: 3, looks: 10, phases: 2, steps: 12 }
    } else {
        Cfg { miri, readers: 8, looks: 200, phases: 4, steps: 60 }
    };
    let parts: Vec<usize> = match std::env::var("VERIF_PART").as_deref() {
        Ok("history") => vec![0],
        Ok("readers") => vec![1],
        Ok("moves") => vec![2],
        Ok("engine") => vec![3],
        _ => vec![0, 1, 1, 2, 3],
    };
    let total = rep.scale(if miri { 10 } else { 1500 }, if miri { 60 } else { 60_000 });
    let _ = Arc::new(());
    for case in 0..total {
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        if rep.stop() {
            break;
        }
        let mut r = Rng::new(rep.seed, 20_000 + case);
        let part = parts[case as usize % parts.len()];
        let big = case % 7 == 6;
        let mut counts = Counts::new();
        let out = guarded(|| match part {
            0 => history(&mut r, &cfg, big, &mut counts),
            1 => readers(&mut r, &cfg, big, &mut counts),
            2 => moves(&mut r, &cfg, &mut counts),
            _ => engine(&mut r, &cfg, &mut counts),
        });
        let name = ["history", "readers", "moves", "engine"][part];
        for (k, v) in &counts {
            rep.count(k, *v);
        }
        match out {
            Ok(Ok(sig)) => {
                rep.count(&format!("cases: {name}"), 1);
                rep.eval((part, sig), true);
                rep.sample(|| format!("case {case}: {name}, signature {sig:x}: {counts:?}"));
            }
            Ok(Err(e)) => {
                // a wrong result in one thread is for the other properties
                if part == 0 {
                    rep.count("histories ended by another property", 1);
                    rep.notes.push(format!("case {case}: {e}"));
                } else {
                    let key: String = format!("{name}: {e}").chars().filter(|c| !c.is_ascii_digit()).take(100).collect();
                    rep.violation(key, format!("case {case} ({name}): {e}"), vec![]);
                }
            }
            Err(p) => rep.violation(format!("{name} panic"), format!("case {case} ({name}): unexpected panic: {p}"), vec![]),
        }
    }
    rep.finish()
}
