//! Threads that send batches, an engine that handles them, and a checker over
//! what was sent and what was handled.
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{RecvTimeoutError, TryRecvError};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use tp_client::action::property::*;
use tp_client::action::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::states::*;
use tp_client::contract::*;
use tp_client::engine::{ActionSender, Engine};
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use vcore::types::*;
use vcore::world::*;
use vcore::*;

contract!(CId, SId { id: u64, text: String }, ChId {}, "verif.id", (0, 0, 1));

/// What a batch is: who sent it, its number, whether its assertion fails.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
struct Id {
    sender: u32,
    n: u32,
    bad: bool,
}
impl Id {
    fn bits(self) -> u64 {
        ((self.sender as u64) << 33) | ((self.n as u64) << 1) | self.bad as u64
    }
    fn of(b: u64) -> Id {
        Id { sender: (b >> 33) as u32, n: (b >> 1) as u32, bad: b & 1 == 1 }
    }
}

/// A batch without actions: it cannot be told from another.
const EMPTY: Id = Id { sender: u32::MAX, n: 0, bad: false };
const ZERO: usize = usize::MAX;
const FOREVER: usize = usize::MAX - 1;

struct Fork {
    id: StateHandle<u64>,
    text: StateHandle<String>,
}

fn engine(cap: Option<usize>) -> Result<(Engine, ActionSender, Fork), String> {
    let (mut e, tx) = Engine::new(Realm::new(RealmID::new("verif".into())), cap);
    let mk = |b: &mut Baseline| -> Result<(CId, ObjectHandle), String> {
        let c: CId = b.register_contract().map_err(|e| e.to_string())?;
        let s = vec![u64::MAX.dyn_prop(), "start".to_string().dyn_prop()];
        let o = b.object_create(&c, s.into_iter(), std::iter::empty()).map_err(|e| e.to_string())?;
        Ok((c, o))
    };
    mk(e.realm_mut().baseline_mut(BaselineKind::Main))?;
    let b = e.realm_mut().baseline_mut(BaselineKind::Fork);
    let (c, o) = mk(b)?;
    let f = Fork {
        id: b.bind_state(c.states().id(), o).map_err(|e| e.to_string())?,
        text: b.bind_state(c.states().text(), o).map_err(|e| e.to_string())?,
    };
    Ok((e, tx, f))
}

fn batch(f: (StateHandle<u64>, StateHandle<String>), id: Id) -> Collaction {
    if id == EMPTY {
        return Collaction::verif_new(vec![]);
    }
    let w = |v: u64| Action::Property(PropertyAction::State(StateAction::Write { handle: u64::dyn_shandle(f.0), data: v.dyn_prop() }));
    let mut a = vec![];
    // its size belongs to its identity, too
    for k in 0..id.n % 3 {
        a.push(w(k as u64));
    }
    a.push(w(id.bits()));
    if id.bad {
        a.push(Action::Property(PropertyAction::State(StateAction::Assert {
            handle: String::dyn_shandle(f.1),
            data: format!("not what is there {}", id.n).dyn_prop(),
        })));
    }
    Collaction::verif_new(a)
}
/// The identity of a batch that was not applied.
fn of_batch(c: &Collaction) -> Option<Id> {
    let mut last = None;
    if c.actions().is_empty() {
        return Some(EMPTY);
    }
    for a in c.actions() {
        if let Action::Property(PropertyAction::State(StateAction::Write { data: DynTpProperty::Primitive(DynTpPrimitive::U64(v)), .. })) = a {
            last = Some(Id::of(*v));
        }
    }
    last.filter(|id| c.actions().len() == id.n as usize % 3 + 1 + id.bad as usize)
}
use tp_client::contract::properties::dynamic::{DynTpPrimitive, DynTpProperty};

#[derive(Debug)]
enum Ev {
    Handled(Id),
    Rejected(Id),
}

/// Looks at the fork before and after one apply.
struct Driver {
    e: Engine,
    f: Fork,
    log: Vec<Ev>,
    empties: u64,
    timeouts: u64,
}
impl Driver {
    fn seen(&self) -> (u64, String) {
        let b = self.e.realm().baseline(BaselineKind::Fork);
        (b[self.f.id].value, b[self.f.text].value.clone())
    }
    /// Ok(true): handled one; Ok(false): nothing pending; Err(None): disconnected
    fn apply(&mut self, how: usize) -> Result<bool, Option<String>> {
        let before = self.seen();
        let t0 = Instant::now();
        let (res, wait) = match how {
            0 => (
                self.e.try_apply().map_err(|e| match format!("{e:?}").as_str() {
                    "Empty" => TryRecvError::Empty,
                    _ => TryRecvError::Disconnected,
                }),
                Duration::ZERO,
            ),
            ms => {
                let d = match ms {
                    ZERO => Duration::ZERO,
                    FOREVER => Duration::MAX,
                    ms => Duration::from_micros(ms as u64 * 50),
                };
                (
                    self.e.apply_timeout(d).map_err(|e| match format!("{e:?}").as_str() {
                        "Timeout" => TryRecvError::Empty,
                        _ => TryRecvError::Disconnected,
                    }),
                    d,
                )
            }
        };
        let took = t0.elapsed();
        let after = self.seen();
        if after.1 != "start" {
            return Err(Some("a state no batch writes has changed".into()));
        }
        match res {
            Ok(Ok(c)) if c.actions().is_empty() => {
                if before != after {
                    return Err(Some("a batch without actions changed the fork".into()));
                }
                self.log.push(Ev::Handled(EMPTY));
                Ok(true)
            }
            Ok(Ok(c)) => {
                let id = Id::of(after.0);
                if id.bad {
                    return Err(Some(format!("batch {id:?} was accepted though its assertion fails")));
                }
                if c.actions().len() != id.n as usize % 3 + 1 {
                    return Err(Some(format!("the fork shows batch {id:?}, the batch that came back has {} actions", c.actions().len())));
                }
                self.log.push(Ev::Handled(id));
                Ok(true)
            }
            Ok(Err(c)) => {
                let Some(id) = of_batch(&c) else { return Err(Some("a rejected batch nobody sent came back".into())) };
                if !id.bad {
                    return Err(Some(format!("batch {id:?} was rejected")));
                }
                if before != after {
                    return Err(Some(format!("the rejected batch {id:?} changed the fork")));
                }
                self.log.push(Ev::Rejected(id));
                Ok(true)
            }
            Err(e) => {
                if before != after {
                    return Err(Some("the fork changed though no batch was pending".into()));
                }
                if e == TryRecvError::Disconnected {
                    return Err(None);
                }
                if how > 0 {
                    self.timeouts += 1;
                    if took < wait {
                        return Err(Some(format!("timed out after {took:?} of {wait:?}")));
                    }
                } else {
                    self.empties += 1;
                }
                Ok(false)
            }
        }
    }
}

/// Spins, sleeps or yields a little.
fn jitter(r: &mut Rng) {
    match r.below(12) {
        0 => thread::sleep(Duration::from_micros(r.below(300) as u64)),
        1 | 2 => thread::yield_now(),
        3 => {
            for _ in 0..r.below(2000) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

/// A step that must end; the watchdog reports it if it does not.
struct Watch(Mutex<Option<(Instant, String)>>);
impl Watch {
    fn during<R>(&self, what: &str, f: impl FnOnce() -> R) -> R {
        *self.0.lock().unwrap() = Some((Instant::now(), what.into()));
        let r = f();
        *self.0.lock().unwrap() = None;
        r
    }
}

struct Out {
    order: Vec<Id>,
    counts: BTreeMap<String, u64>,
}

fn threads(r: &mut Rng, cap: Option<usize>) -> Result<Out, String> {
    let (e, tx, f) = engine(cap)?;
    let n_senders = 1 + r.below(6);
    let per = if r.chance(1, 12) { 400 } else { 5 + r.below(60) };
    let hs = (f.id, f.text);
    let over = Arc::new(AtomicU64::new(0));
    let full = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let mut ths = vec![];
    let starve = r.chance(1, 4); // the engine starts late: queues fill up
    for s in 0..n_senders {
        let tx = tx.clone();
        let mut r = Rng::new(r.next(), s as u64);
        let (over, full) = (over.clone(), full.clone());
        ths.push(thread::spawn(move || -> Result<Vec<Id>, String> {
            let mut sent = vec![];
            let style = r.below(4);
            let mut tx = tx;
            for n in 0..per {
                let id = if n_senders == 1 && r.chance(1, 6) { EMPTY } else { Id { sender: s as u32, n: n as u32, bad: r.chance(1, 5) } };
                jitter(&mut r);
                let mut c = batch(hs, id);
                let how = if style == 3 { r.below(3) } else { style };
                let ok = match how {
                    0 => match tx.send(c) {
                        Ok(()) => true,
                        Err(_) => return Err(format!("sending {id:?} failed while the engine lives")),
                    },
                    1 => {
                        // non-blocking, a few attempts; the batch comes back when it is refused
                        let mut ok = false;
                        for _ in 0..1 + r.below(40) {
                            match tx.try_send(c) {
                                Ok(()) => {
                                    ok = true;
                                    break;
                                }
                                Err(e) => {
                                    full.fetch_add(1, SeqCst);
                                    if e.is_disconnected() {
                                        return Err(format!("try_send of {id:?} says disconnected while the engine lives"));
                                    }
                                    if cap.is_none() {
                                        return Err("an unbounded queue says it is full".into());
                                    }
                                    c = e.into_inner();
                                    if of_batch(&c) != Some(id) {
                                        return Err(format!("a refused batch {id:?} came back as {:?}", of_batch(&c)));
                                    }
                                    thread::sleep(Duration::from_micros(r.below(60) as u64));
                                }
                            }
                            break_if_empty(&c);
                        }
                        ok
                    }
                    _ => {
                        match tx.send_timeout(c, Duration::from_micros(r.below(400) as u64)) {
                            Ok(()) => true,
                            Err(e) => {
                                full.fetch_add(1, SeqCst);
                                if e.is_disconnected() {
                                    return Err(format!("send_timeout of {id:?} says disconnected while the engine lives"));
                                }
                                if cap.is_none() {
                                    return Err("an unbounded queue timed out".into());
                                }
                                let c = e.into_inner();
                                if of_batch(&c) != Some(id) {
                                    return Err(format!("a refused batch {id:?} came back as {:?}", of_batch(&c)));
                                }
                                false
                            }
                        }
                    }
                };
                if ok {
                    sent.push(id);
                }
                if let Some(cap) = cap {
                    if tx.len() > cap {
                        over.fetch_add(1, SeqCst);
                    }
                }
                if r.chance(1, 20) {
                    // senders come and go
                    let t2 = tx.clone();
                    drop(std::mem::replace(&mut tx, t2));
                }
            }
            Ok(sent)
        }));
    }
    drop(tx);
    let mut d = Driver { e, f, log: vec![], empties: 0, timeouts: 0 };
    let mut r2 = Rng::new(r.next(), 99);
    let move_at = if r.chance(1, 3) { r.below(100) } else { usize::MAX };
    if starve {
        thread::sleep(Duration::from_micros(r.below(2500) as u64));
    }
    let drive = move |mut d: Driver, mut r2: Rng, limit: usize| -> (Driver, Rng, Result<bool, String>) {
        for _ in 0..limit {
            let how = match r2.below(8) {
                0..=3 => 0,
                4 => ZERO,
                _ => 1 + r2.below(20),
            };
            match d.apply(how) {
                Ok(true) => {}
                Ok(false) => thread::yield_now(),
                Err(None) => return (d, r2, Ok(true)),
                Err(Some(e)) => return (d, r2, Err(e)),
            }
            jitter(&mut r2);
        }
        (d, r2, Ok(false))
    };
    let mut moves = 0;
    let end;
    if move_at != usize::MAX {
        // the engine changes threads on the way
        loop {
            let (nd, nr, res) = thread::spawn(move || drive(d, r2, move_at + 3)).join().map_err(|_| "the engine panicked".to_string())?;
            d = nd;
            r2 = nr;
            moves += 1;
            match res {
                Ok(false) => {}
                x => {
                    end = x;
                    break;
                }
            }
        }
    } else {
        let (nd, _, res) = drive(d, r2, usize::MAX);
        d = nd;
        end = res;
    }
    if end.is_err() {
        // let blocked senders go
        let log = format!("{:?}", d.log.iter().rev().take(5).collect::<Vec<_>>());
        drop(d);
        for t in ths {
            let _ = t.join();
        }
        return Err(format!("{} (latest: {log})", end.unwrap_err()));
    }
    done.store(true, SeqCst);
    let mut sent = vec![];
    for t in ths {
        sent.push(t.join().map_err(|_| "a sender panicked".to_string())??);
    }
    // the offline checker
    let mut next: Vec<VecDeque<Id>> = sent.iter().map(|s| s.iter().copied().collect()).collect();
    let mut order = vec![];
    for ev in &d.log {
        let (id, bad) = match ev {
            Ev::Handled(i) => (*i, false),
            Ev::Rejected(i) => (*i, true),
        };
        if id.bad != bad {
            return Err(format!("batch {id:?} got the wrong verdict"));
        }
        let q = next.get_mut(if id == EMPTY { 0 } else { id.sender as usize }).ok_or(format!("a batch nobody sent was handled: {id:?}"))?;
        match q.pop_front() {
            Some(x) if x == id => {}
            Some(x) => return Err(format!("sender {}: batch {} was handled when {} was next", id.sender, id.n, x.n)),
            None => return Err(format!("batch {id:?} was handled, but all of that sender's batches already were")),
        }
        order.push(id);
    }
    for (s, q) in next.iter().enumerate() {
        if let Some(x) = q.front() {
            return Err(format!("disconnection was reported with {} batches of sender {s} not handled, from number {}", q.len(), x.n));
        }
    }
    if over.load(SeqCst) > 0 {
        return Err(format!("a queue of capacity {cap:?} held more"));
    }
    // nothing comes after the end
    for how in [0, 1] {
        match d.apply(how) {
            Err(None) => {}
            Ok(x) => return Err(format!("after disconnection, applying gives {x}")),
            Err(Some(e)) => return Err(e),
        }
    }
    let mut counts = BTreeMap::new();
    counts.insert("batches handled".into(), d.log.len() as u64);
    counts.insert("batches rejected".into(), d.log.iter().filter(|e| matches!(e, Ev::Rejected(_))).count() as u64);
    counts.insert("sends refused by a full queue".into(), full.load(SeqCst));
    counts.insert("applies that found nothing".into(), d.empties);
    counts.insert("applies that timed out".into(), d.timeouts);
    counts.insert("moves of the engine between threads".into(), moves);
    counts.insert(format!("runs with capacity {}", cap.map_or("none".into(), |c| c.to_string())), 1);
    counts.insert(format!("runs with {n_senders} senders"), 1);
    let switches = order.windows(2).filter(|w| w[0].sender != w[1].sender).count();
    counts.insert("switches between senders in handled order".into(), switches as u64);
    Ok(Out { order, counts })
}
fn break_if_empty(_: &Collaction) {}

/// One thread, queue semantics exactly.
fn single(r: &mut Rng, watch: &Watch) -> Result<Out, String> {
    let cap = [None, Some(1), Some(2), Some(3), Some(7), Some(64), Some(0), Some(255), Some(256), Some(1000), Some(5000)][r.below(11)];
    let fill = r.chance(1, 3); // first up to the capacity
    let mut filling = fill;
    let (e, tx, f) = engine(cap)?;
    let hs = (f.id, f.text);
    let mut d = Driver { e, f, log: vec![], empties: 0, timeouts: 0 };
    let mut senders = vec![Some(tx)];
    let mut q: VecDeque<Id> = VecDeque::new();
    let mut n = 0;
    let mut order = vec![];
    let mut counts = BTreeMap::new();
    let mut fulls = 0u64;
    let steps = if fill { cap.unwrap_or(3000) + 20 } else { 20 } + r.below(200);
    for step in 0..steps {
        let live: Vec<usize> = (0..senders.len()).filter(|i| senders[*i].is_some()).collect();
        filling &= cap.map_or(q.len() < 3000, |c| fulls == 0 || q.len() < c);
        match if filling { 2 } else { r.below(10) } {
            0 if senders.len() < 6 && !live.is_empty() => {
                let c = senders[*r.pick(&live)].clone();
                senders.push(c);
            }
            1 if live.len() > 1 || r.chance(1, 20) => {
                if !live.is_empty() {
                    let i = *r.pick(&live);
                    senders[i] = None;
                }
            }
            2..=5 if !live.is_empty() => {
                let s = *r.pick(&live);
                let id = if r.chance(1, 6) { EMPTY } else { Id { sender: s as u32, n, bad: r.chance(1, 5) } };
                n += 1;
                let c = batch(hs, id);
                let room = cap.map_or(true, |c| q.len() < c);
                let tx = senders[s].as_ref().unwrap();
                if tx.capacity() != cap {
                    return Err(format!("a queue of capacity {cap:?} says {:?}", tx.capacity()));
                }
                let how = r.below(3);
                let res = watch.during("sending", || match how {
                    0 if room => tx.send(c).map_err(|e| (e.into_inner(), false)),
                    1 => tx.send_timeout(c, Duration::from_micros(30)).map_err(|e| (!e.is_timeout(), e.into_inner())).map_err(|(d, c)| (c, d)),
                    _ => tx.try_send(c).map_err(|e| (e.is_disconnected(), e.into_inner())).map_err(|(d, c)| (c, d)),
                });
                match res {
                    Ok(()) if room => q.push_back(id),
                    Ok(()) => return Err(format!("a full queue of capacity {cap:?} took another batch")),
                    Err((_, true)) => return Err("disconnected while the engine lives".into()),
                    Err(_) if room => return Err(format!("a queue of capacity {cap:?} with {} batches refused another", q.len())),
                    Err((c, _)) => {
                        fulls += 1;
                        if of_batch(&c) != Some(id) {
                            return Err("a refused batch did not come back as it was sent".into());
                        }
                    }
                }
                if tx.len() != q.len() {
                    return Err(format!("{} batches are pending, the queue says {}", q.len(), tx.len()));
                }
            }
            _ => {
                let how = match r.below(9) {
                    0..=4 => 0,
                    5 => ZERO,
                    // does not wait: there is one, or there never will be
                    6 if !q.is_empty() || live.is_empty() => FOREVER,
                    _ => 1 + r.below(2),
                };
                let had = d.log.len();
                let res = watch.during("applying", || d.apply(how));
                match (res, q.pop_front()) {
                    (Ok(true), Some(id)) => {
                        let got = match d.log[had] {
                            Ev::Handled(i) | Ev::Rejected(i) => i,
                        };
                        if got != id {
                            return Err(format!("step {step}: handled {got:?}, {id:?} was next"));
                        }
                        order.push(id);
                    }
                    (Ok(true), None) => return Err("a batch was handled, none was pending".into()),
                    (Ok(false), Some(id)) => return Err(format!("nothing pending is reported, {id:?} is")),
                    (Ok(false), None) if live.is_empty() => return Err("nothing pending is reported after all senders are gone".into()),
                    (Ok(false), None) => {}
                    (Err(None), Some(id)) => return Err(format!("disconnection is reported with {id:?} pending")),
                    (Err(None), None) if !live.is_empty() => return Err("disconnection is reported with senders alive".into()),
                    (Err(None), None) => break,
                    (Err(Some(e)), _) => return Err(e),
                }
            }
        }
    }
    // an engine that goes away tells its senders
    if let Some(tx) = senders.iter().flatten().next() {
        drop(d);
        let id = Id { sender: 0, n: 5, bad: false };
        match watch.during("sending to an engine that is gone", || tx.send(batch(hs, id))) {
            Ok(()) => return Err("a batch was taken for an engine that is gone".into()),
            Err(e) => {
                if of_batch(&e.into_inner()) != Some(id) {
                    return Err("a batch for an engine that is gone did not come back as it was sent".into());
                }
            }
        }
        counts.insert("engines dropped before their senders".into(), 1);
    }
    counts.insert("single-thread histories".into(), 1);
    counts.insert(format!("single-thread histories with capacity {cap:?}"), 1);
    counts.insert("sends refused by a full queue".into(), fulls);
    Ok(Out { order, counts })
}

/// Waits that end because something happens.
fn waits(r: &mut Rng, watch: &Watch) -> Result<Out, String> {
    let cap = [None, Some(0), Some(1)][r.below(3)];
    let (e, tx, f) = engine(cap)?;
    let hs = (f.id, f.text);
    let mut d = Driver { e, f, log: vec![], empties: 0, timeouts: 0 };
    // in units of 50 us: 30 s, and times just above 2^16 ms, ten times 2^32 ns, 2^32 us, ms and s, 2^63 and 2^64 ns
    let longs = [600_000, 65_537 * 20, 859_000, 85_899_346, (1 << 32) * 20 + 1, (1 << 32) * 20_000 + 1, (1usize << 63) / 50_000 + 1, 368_934_881_474_192, FOREVER];
    let long = *r.pick(&longs);
    let mut rr = Rng::new(r.next(), 7);
    let kind = r.below(3);
    let ids: Vec<Id> = (0..3).map(|n| Id { sender: 1, n, bad: n == 1 }).collect();
    let ids2 = ids.clone();
    let mut counts = BTreeMap::new();
    match kind {
        0 => {
            // a batch arrives during the wait; then the sender leaves during another
            let t = thread::spawn(move || {
                for id in ids2 {
                    thread::sleep(Duration::from_micros(rr.below(2500) as u64));
                    if tx.send(batch(hs, id)).is_err() {
                        return;
                    }
                }
                thread::sleep(Duration::from_micros(rr.below(2500) as u64));
            });
            for _ in 0..3 {
                match watch.during("a wait that a batch ends", || d.apply(long)) {
                    Ok(true) => {}
                    Ok(false) => return Err("a long wait ended without the batch that was sent during it".into()),
                    Err(None) => return Err("disconnection is reported before the last batch".into()),
                    Err(Some(e)) => return Err(e),
                }
            }
            match watch.during("a wait that disconnection ends", || d.apply(long)) {
                Err(None) => {}
                Ok(x) => return Err(format!("after the last sender left, applying gives {x}")),
                Err(Some(e)) => return Err(e),
            }
            let _ = t.join();
            counts.insert("waits ended by a batch".into(), 3u64);
            counts.insert("waits ended by disconnection".into(), 1);
        }
        1 => {
            // senders blocked on a full queue get in when a batch is handled
            let t = thread::spawn(move || ids2.into_iter().all(|id| tx.send(batch(hs, id)).is_ok()));
            thread::sleep(Duration::from_micros(rr.below(1500) as u64));
            let mut got = 0;
            let t0 = Instant::now();
            while got < 3 && t0.elapsed() < Duration::from_secs(60) {
                match d.apply(0) {
                    Ok(true) => got += 1,
                    Ok(false) => thread::yield_now(),
                    Err(None) if got < 3 => return Err("disconnection is reported before the last batch".into()),
                    Err(None) => {}
                    Err(Some(e)) => return Err(e),
                }
            }
            if got < 3 {
                return Err("batches of a blocked sender never arrived".into());
            }
            if !t.join().map_err(|_| "a sender panicked".to_string())? {
                return Err("a blocked send failed while the engine lives".into());
            }
            counts.insert("blocked senders let in".into(), 1);
        }
        _ => {
            // two engines, each with its own queue
            let (e2, tx2, f2) = engine(cap)?;
            let hs2 = (f2.id, f2.text);
            let mut d2 = Driver { e: e2, f: f2, log: vec![], empties: 0, timeouts: 0 };
            let ids3: Vec<Id> = (0..4).map(|n| Id { sender: 2, n, bad: n == 2 }).collect();
            let ids4 = ids3.clone();
            let ta = thread::spawn(move || ids2.into_iter().all(|id| tx.send(batch(hs, id)).is_ok()));
            let tb = thread::spawn(move || ids4.into_iter().all(|id| tx2.send(batch(hs2, id)).is_ok()));
            for (d, want) in [(&mut d2, &ids3), (&mut d, &ids)] {
                for id in want {
                    match watch.during("a wait that a batch ends", || d.apply(long)) {
                        Ok(true) => match d.log.last() {
                            Some(Ev::Handled(i)) | Some(Ev::Rejected(i)) if i == id => {}
                            x => return Err(format!("an engine handled {x:?}, {id:?} was next")),
                        },
                        x => return Err(format!("an engine did not handle {id:?}: {x:?}")),
                    }
                }
            }
            let _ = (ta.join(), tb.join());
            counts.insert("pairs of engines".into(), 1);
        }
    }
    let order = d.log.iter().map(|e| match e { Ev::Handled(i) | Ev::Rejected(i) => *i }).collect();
    Ok(Out { order, counts })
}

/// Many batches at once; an unbounded queue takes them all.
fn big(r: &mut Rng) -> Result<Out, String> {
    let (e, tx, f) = engine(None)?;
    let hs = (f.id, f.text);
    let n = 3000 + r.below(5000) as u32;
    for i in 0..n {
        tx.try_send(batch(hs, if i % 5 == 2 { EMPTY } else { Id { sender: 0, n: i, bad: false } })).map_err(|_| format!("an unbounded queue refused batch {i}"))?;
    }
    if r.chance(1, 2) {
        drop(tx);
    }
    let mut d = Driver { e, f, log: vec![], empties: 0, timeouts: 0 };
    for i in 0..n {
        match d.apply([0, 1, ZERO, FOREVER][(i % 4) as usize]) {
            Ok(true) => {}
            x => return Err(format!("batch {i} of {n} was not handled: {x:?}")),
        }
        if !matches!(d.log.last(), Some(Ev::Handled(id)) if (*id == EMPTY && i % 5 == 2) || (*id != EMPTY && id.n == i)) {
            return Err(format!("{:?} was handled when {i} was next", d.log.last()));
        }
    }
    let mut counts = BTreeMap::new();
    counts.insert("batches in long queues".into(), n as u64);
    Ok(Out { order: vec![Id { sender: 0, n, bad: false }], counts })
}

fn main() {
    let mut rep = Report::new("C14", "Runs of 1 to 6 threads sending numbered batches (blocking, timed, non-blocking, with random pauses) to an engine with queue capacity none, 0, 1, 2, 7 or 64 that applies with and without waiting, changes threads and may start late; the log of handled batches is checked for each sender's order, exactly once, verdicts, and delivery before disconnection. Single-threaded histories against an exact queue, and waits ended by a batch or by disconnection. A case is one run's order of handled batches");
    let watch: &'static Watch = Box::leak(Box::new(Watch(Mutex::new(None))));
    let stuck: Arc<Mutex<Option<Report>>> = Arc::new(Mutex::new(None));
    let (dog_tx, dog_rx) = std::sync::mpsc::channel::<()>();
    {
        // a step that cannot be waited for any more ends the run with a report
        let stuck = stuck.clone();
        thread::spawn(move || loop {
            match dog_rx.recv_timeout(Duration::from_millis(500)) {
                Err(RecvTimeoutError::Timeout) => {}
                _ => return,
            }
            let late = watch.0.lock().unwrap().as_ref().filter(|(t, _)| t.elapsed() > Duration::from_secs(60)).map(|x| x.1.clone());
            if let Some(what) = late {
                let mut rep = stuck.lock().unwrap().take().unwrap_or_else(|| Report::new("C14", "a step that did not end"));
                rep.evaluations += 1;
                rep.violation("a step did not end", format!("{what} did not end within 60 s"), vec![]);
                rep.finish();
            }
        });
    }
    let caps = [None, Some(0), Some(1), Some(2), Some(7), Some(64)];
    let total = rep.scale(1400, 80_000);
    for case in 0..total {
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        if rep.stop() {
            break;
        }
        let mut r = Rng::new(rep.seed, case);
        let cap = caps[case as usize / 4 % 6];
        let out = guarded(|| match case % 4 {
            0 | 1 => watch_run(watch, || threads(&mut r, cap)),
            2 => single(&mut r, watch),
            _ if case % 40 == 3 => big(&mut r),
            _ => waits(&mut r, watch),
        });
        let kind = ["threads", "threads", "single", "waits"][case as usize % 4];
        match out {
            Ok(Ok(o)) => {
                for (k, v) in o.counts {
                    rep.count(&k, v);
                }
                let sig: Vec<u32> = o.order.iter().map(|i| i.sender).collect();
                rep.sample(|| format!("{kind}: senders in handled order {:?}", &sig[..sig.len().min(60)]));
                rep.eval((kind, o.order), sig.len() > 1);
            }
            Ok(Err(e)) => rep.violation(format!("{kind}: {}", e.chars().filter(|c| !c.is_ascii_digit()).take(70).collect::<String>()), format!("case {case} ({kind}, capacity {cap:?}): {e}"), vec![]),
            Err(p) => rep.violation(format!("{kind} panic"), format!("case {case} ({kind}, capacity {cap:?}): unexpected panic: {p}"), vec![]),
        }
    }
    drop(dog_tx);
    rep.finish()
}
/// A whole run with threads must end, too.
fn watch_run<R>(w: &Watch, f: impl FnOnce() -> R) -> R {
    w.during("a run whose senders all finish", f)
}
