//! Batches applied by a real engine, next to a sequential model of them.
use std::collections::{HashMap, HashSet};
use tp_client::action::property::*;
use tp_client::action::*;
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::states::*;
use tp_client::engine::{ActionSender, Engine};
use tp_client::realm::{Realm, RealmID};
use tp_client::time::Ticks;
use vcore::report::h64;
use vcore::types::*;
use vcore::world::*;
use vcore::*;

type H = (usize, bool, (usize, u64));

/// What an action asks for, in the model's terms.
#[derive(Clone, PartialEq, Debug, Hash)]
enum Act {
    Assert(H, Val),
    Write(H, Val),
    ChanAssert(H, Val),
    ChanWrite(H, Val),
}

fn handle_of(h: DynStateHandle) -> H {
    fn f<T: Prop>(h: StateHandle<T>) -> H {
        (T::TY, T::LIST, raw(h))
    }
    tp_client::apply_to_state_handle!(h, f)
}
fn dyn_sh(h: H) -> DynStateHandle {
    dispatch!(h.0, h.1, T => T::dyn_shandle(sh::<T>(h.2)))
}
fn dyn_ch(h: H) -> DynChannelHandle {
    dispatch!(h.0, h.1, T => T::dyn_chandle(chh::<T>(h.2)))
}
fn chan_handle_of(h: DynChannelHandle) -> H {
    for ty in 0..14 {
        for list in [false, true] {
            if let Some(x) = dispatch!(ty, list, T => T::from_dyn_chandle(h).ok().map(raw)) {
                return (ty, list, x);
            }
        }
    }
    unreachable!()
}

fn real(a: &Act) -> Action {
    match a {
        Act::Assert(h, v) => Action::Property(PropertyAction::State(StateAction::Assert { handle: dyn_sh(*h), data: to_dyn(v) })),
        Act::Write(h, v) => Action::Property(PropertyAction::State(StateAction::Write { handle: dyn_sh(*h), data: to_dyn(v) })),
        Act::ChanAssert(h, v) => Action::Property(PropertyAction::Channel(ChannelAction::Assert { handle: dyn_ch(*h), data: to_dyn(v) })),
        Act::ChanWrite(h, v) => Action::Property(PropertyAction::Channel(ChannelAction::Write { handle: dyn_ch(*h), data: to_dyn(v) })),
    }
}
fn read_back(a: &Action) -> Act {
    match a {
        Action::Property(PropertyAction::State(StateAction::Assert { handle, data })) => Act::Assert(handle_of(*handle), dyn_val(data)),
        Action::Property(PropertyAction::State(StateAction::Write { handle, data })) => Act::Write(handle_of(*handle), dyn_val(data)),
        Action::Property(PropertyAction::Channel(ChannelAction::Assert { handle, data })) => Act::ChanAssert(chan_handle_of(*handle), dyn_val(data)),
        Action::Property(PropertyAction::Channel(ChannelAction::Write { handle, data })) => Act::ChanWrite(chan_handle_of(*handle), dyn_val(data)),
    }
}

/// Where a live field of a baseline is, by its handle.
fn fields(w: &World, m: usize) -> HashMap<H, (usize, usize)> {
    let mut f = HashMap::new();
    for i in w.m[m].live_objs() {
        let o = &w.m[m].objs[i];
        let k = &w.kinds[w.m[m].regs[o.reg].kind];
        for (n, (t, l)) in k.states.iter().enumerate() {
            f.insert((*t, *l, o.sh[n]), (i, n));
        }
    }
    f
}

/// The model: the values after the batch, or the first action that fails.
fn simulate(w: &World, live: &HashMap<H, (usize, usize)>, batch: &[Act]) -> Result<HashMap<H, Val>, (usize, &'static str)> {
    let mut now: HashMap<H, Val> = HashMap::new();
    for (n, a) in batch.iter().enumerate() {
        match a {
            Act::Assert(h, v) => {
                let Some((i, f)) = live.get(h) else { return Err((n, "assert on a dead field")) };
                let cur = now.get(h).unwrap_or(&w.m[1].objs[*i].s[*f]);
                if !val_eq(cur, v) {
                    return Err((n, if (cur.ty, cur.list) != (v.ty, v.list) { "assert of another type" } else { "assert of another value" }));
                }
            }
            Act::Write(h, v) => {
                if !live.contains_key(h) {
                    return Err((n, "write to a dead field"));
                }
                if (h.0, h.1) != (v.ty, v.list) {
                    return Err((n, "write of another type"));
                }
                now.insert(*h, v.clone());
            }
            _ => {}
        }
    }
    Ok(now)
}

struct Gen<'a> {
    w: &'a World,
    live: Vec<H>,
    dead: Vec<H>,
    foreign: Vec<H>,
}

impl Gen<'_> {
    fn batch(&self, r: &mut Rng, map: &HashMap<H, (usize, usize)>) -> Vec<Act> {
        let mut now: HashMap<H, Val> = HashMap::new();
        let n = match r.below(8) {
            0 => r.below(2),
            1 if r.chance(1, 3) => [300, 1100, 3000][r.below(3)] + r.below(300),
            1 => 10 + r.below(60),
            _ => 1 + r.below(8),
        };
        let hostile = r.chance(1, 2);
        // few fields, so that the same one is hit again and again
        let pool: Vec<H> = if self.live.is_empty() { vec![] } else { (0..1 + r.below(4)).map(|_| *r.pick(&self.live)).collect() };
        let mut out = vec![];
        let mut bad_left = if hostile { 1 + r.below(2) } else { 0 };
        for k in 0..n {
            let bad = bad_left > 0 && r.chance(1, (n - k).max(1));
            if bad || pool.is_empty() {
                bad_left = bad_left.saturating_sub(1);
                let any = |r: &mut Rng| -> H {
                    match r.below(4) {
                        0 if !self.dead.is_empty() => *r.pick(&self.dead),
                        1 if !self.foreign.is_empty() => *r.pick(&self.foreign),
                        2 if !self.live.is_empty() => {
                            // the right place in the wrong type's storage
                            let h = *r.pick(&self.live);
                            (r.below(14), r.chance(1, 3), h.2)
                        }
                        _ if !self.live.is_empty() => *r.pick(&self.live),
                        _ => (r.below(14), r.chance(1, 3), (r.below(4), r.below(4) as u64)),
                    }
                };
                let h = any(r);
                let v = match r.below(4) {
                    // the bits of the value there, as another type
                    0 if map.contains_key(&h) => {
                        let (i, f) = map[&h];
                        let cur = now.get(&h).cloned().unwrap_or_else(|| self.w.m[1].objs[i].s[f].clone());
                        let t = r.below(14);
                        let ok = |c: &Cell| match c {
                            Cell::Bits(_) => t < 8 || t == 10,
                            Cell::Str(_) => t == 11,
                            Cell::Handle(..) => t >= 12,
                        };
                        let w = [8, 16, 32, 64, 8, 16, 32, 64, 1, 32, 64, 0, 0, 0][t];
                        if cur.cells.iter().all(ok) {
                            let cells = cur.cells.iter().map(|c| match c {
                                Cell::Bits(b) if w < 64 => Cell::Bits(b & ((1 << w) - 1)),
                                c => c.clone(),
                            });
                            Val { ty: t, list: cur.list, cells: cells.collect() }
                        } else {
                            cur
                        }
                    }
                    1 => gen_val(h.0, !h.1, r),
                    2 => gen_val(r.below(14), h.1, r),
                    _ => gen_val(h.0, h.1, r),
                };
                out.push(if r.chance(1, 2) { Act::Assert(h, v) } else { Act::Write(h, v) });
                continue;
            }
            let h = *r.pick(&pool);
            let (i, f) = map[&h];
            let cur = now.get(&h).unwrap_or(&self.w.m[1].objs[i].s[f]).clone();
            match r.below(8) {
                0 => {
                    let c = (r.below(14), r.chance(1, 3), (r.below(3), r.below(3) as u64));
                    let v = gen_val(c.0, c.1, r);
                    out.push(if r.chance(1, 2) { Act::ChanAssert(c, v) } else { Act::ChanWrite(c, v) });
                }
                1 | 2 | 3 => {
                    // usually holds; not for NaN
                    out.push(Act::Assert(h, cur));
                }
                _ => {
                    let v = match r.below(5) {
                        0 => cur,
                        // equal, yet another value
                        1 if h.0 == 9 || h.0 == 10 => {
                            let minus = if h.0 == 9 { 1 << 31 } else { 1 << 63 };
                            let mut v = cur;
                            for c in &mut v.cells {
                                *c = match c {
                                    Cell::Bits(b) if *b & !minus == 0 => Cell::Bits(*b ^ minus),
                                    _ => Cell::Bits(minus * r.below(2) as u64),
                                }
                            }
                            v
                        }
                        _ => gen_val(h.0, h.1, r),
                    };
                    now.insert(h, v.clone());
                    out.push(Act::Write(h, v));
                }
            }
        }
        out
    }
}

struct Run {
    w: World,
    e: Engine,
    tx: ActionSender,
    sent: std::collections::VecDeque<Vec<Act>>,
    returned: Vec<Collaction>,
    shapes: HashSet<u64>,
    counts: HashMap<&'static str, u64>,
    clock: i128,
}

impl Run {
    fn new() -> Self {
        let (e, tx) = Engine::new(Realm::new(RealmID::new("verif".into())), None);
        let mut w = World::new();
        w.max_live = 10;
        Run { w, e, tx, sent: Default::default(), returned: vec![], shapes: HashSet::new(), counts: HashMap::new(), clock: 0 }
    }
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    fn gen(&self, r: &mut Rng) -> Vec<Act> {
        let map = fields(&self.w, 1);
        let mut live: Vec<H> = map.keys().copied().collect();
        live.sort();
        let mut dead = vec![];
        for o in self.w.m[1].objs.iter().filter(|o| !o.live).rev().take(4) {
            let k = &self.w.kinds[self.w.m[1].regs[o.reg].kind];
            dead.extend(k.states.iter().zip(&o.sh).map(|((t, l), h)| (*t, *l, *h)));
        }
        let mut foreign: Vec<H> = fields(&self.w, 0).into_keys().collect();
        foreign.sort();
        Gen { w: &self.w, live, dead, foreign }.batch(r, &map)
    }
    fn note_batch(&mut self, what: &str, batch: &[Act]) {
        let n = batch.len();
        if n > 80 {
            self.w.note(format!("{what} {n} actions, the last ones {:?}", &batch[n - 10..]));
            self.count("batches of over 80 actions");
        } else {
            self.w.note(format!("{what} {batch:?}"));
        }
    }
    fn send(&mut self, r: &mut Rng) -> Result<(), String> {
        let (batch, c) = if r.chance(1, 6) && !self.returned.is_empty() {
            // one that came back, as it is
            let n = r.below(self.returned.len());
            let c = self.returned.swap_remove(n);
            let b: Vec<Act> = c.actions().iter().map(read_back).collect();
            self.count("batches sent again");
            (b, c)
        } else {
            let b = self.gen(r);
            let c = Collaction::verif_new(b.iter().map(real).collect());
            (b, c)
        };
        self.note_batch("send", &batch);
        self.sent.push_back(batch);
        self.tx.send(c).map_err(|_| "a batch could not be sent".into())
    }
    fn apply(&mut self, r: &mut Rng) -> Result<(), String> {
        std::mem::swap(self.e.realm_mut(), &mut self.w.realm);
        let out = if r.chance(1, 2) {
            self.e.try_apply().map_err(|e| e.to_string())
        } else {
            self.e.apply_timeout(std::time::Duration::from_millis(if self.sent.is_empty() { 1 } else { 10_000 })).map_err(|e| e.to_string())
        };
        std::mem::swap(self.e.realm_mut(), &mut self.w.realm);
        self.w.cur = Op::Write;
        let Some(batch) = self.sent.pop_front() else {
            self.count("applies without a batch");
            return match out {
                Err(_) => self.audit(r),
                Ok(_) => Err("a batch was handled, none was pending".into()),
            };
        };
        let live = fields(&self.w, 1);
        let model = simulate(&self.w, &live, &batch);
        self.note_batch(&format!("apply (model {:?})", model.as_ref().map(|m| m.len())), &batch);
        match (out, model) {
            (Err(e), _) => return Err(format!("a pending batch was not handled: {e}")),
            (Ok(Ok(_)), Err((n, why))) => return Err(format!("a batch was accepted though action {n} fails: {why}")),
            (Ok(Err(_)), Ok(_)) => return Err("a batch was rejected though all of its actions apply".into()),
            (Ok(Ok(c)), Ok(now)) => {
                let back: Vec<Act> = c.actions().iter().map(read_back).collect();
                let kinds = |b: &[Act]| -> Vec<(usize, H)> {
                    b.iter()
                        .map(|a| match a {
                            Act::Assert(h, _) => (0, *h),
                            Act::Write(h, _) => (1, *h),
                            Act::ChanAssert(h, _) => (2, *h),
                            Act::ChanWrite(h, _) => (3, *h),
                        })
                        .collect()
                };
                if kinds(&back) != kinds(&batch) {
                    return Err("an accepted batch came back with other actions".into());
                }
                for (h, v) in now {
                    let (i, f) = live[&h];
                    self.w.m[1].objs[i].s[f] = v;
                }
                self.count("batches accepted");
                if back.iter().filter(|a| matches!(a, Act::Write(..))).count() > 1 {
                    self.count("accepted with several writes");
                }
                self.returned.push(c);
            }
            (Ok(Err(c)), Err((n, why))) => {
                let back: Vec<Act> = c.actions().iter().map(read_back).collect();
                if back != batch {
                    let at = back.iter().zip(&batch).position(|(a, b)| a != b);
                    return Err(format!("a rejected batch came back changed at {at:?} (of {} actions, {n} failed)", batch.len()));
                }
                self.count(why);
                self.count("batches rejected");
                let mut hit = HashSet::new();
                if batch[..n].iter().any(|a| matches!(a, Act::Write(h, _) if !hit.insert(*h))) {
                    self.count("rejected after writing a field twice");
                }
                if n > 0 {
                    self.count("rejected after the first action");
                }
                if n > 1000 {
                    self.count("rejected after over 1000 actions");
                }
                self.returned.push(c);
            }
        }
        if self.returned.len() > 6 {
            self.returned.remove(0);
        }
        self.audit(r)
    }
    fn audit(&mut self, r: &mut Rng) -> Result<(), String> {
        let t = self.w.realm.time().ticks().as_millis() as i128;
        if t != self.clock {
            return Err(format!("the realm's clock is {t}, it was {} before the batch", self.clock));
        }
        for b in [1, 0] {
            self.w.audit(b, Op::Write, r).map_err(|f| format!("{} baseline: {}", ["main", "fork"][b], f.msg))?;
        }
        let s = h64(self.w.m[1].objs.iter().map(|o| (o.live, o.s.clone())).collect::<Vec<_>>());
        self.shapes.insert(s);
        Ok(())
    }
}

fn history(run: &mut Run, r: &mut Rng, steps: usize) -> Result<(), String> {
    let wt = Weights { reg: 3, unreg: 1, create: 10, create_bad: 0, remove: 4, remove_bad: 0, write: 6, bulk: 0 };
    if r.chance(1, 3) {
        run.w.use_kinds = vec![r.below(run.w.kinds.len()), 3];
    }
    for k in 0..2 {
        // something to work on, in both baselines
        let kind = if run.w.use_kinds.is_empty() { [0, 1, 3, 4, 6][r.below(5)] } else { run.w.use_kinds[k] };
        for b in [0, 1] {
            run.w.register_kind(b, kind).map_err(|f| format!("set-up: {}", f.msg))?;
            run.w.op_create(b, r).map_err(|f| format!("set-up: {}", f.msg))?;
        }
    }
    for _ in 0..steps {
        match r.below(12) {
            0 | 1 => {
                // the world changes between sending and applying
                for _ in 0..1 + r.below(3) {
                    if let Err(f) = run.w.step(r, &wt, false) {
                        return Err(format!("between batches: {}", f.msg));
                    }
                }
                if let Err(e) = run.audit(r) {
                    return Err(format!("between batches: {e}"));
                }
            }
            2 => {
                let d = r.below(2000) as i32 - 1200;
                std::mem::swap(run.e.realm_mut(), &mut run.w.realm);
                run.e.tick(Ticks::new(d));
                std::mem::swap(run.e.realm_mut(), &mut run.w.realm);
                run.clock += d as i128;
                run.audit(r)?;
            }
            3 | 4 | 5 => run.send(r)?,
            6 if run.sent.is_empty() => run.apply(r)?,
            _ => {
                if run.sent.is_empty() || r.chance(1, 5) {
                    run.send(r)?;
                }
                run.apply(r)?;
            }
        }
    }
    while !run.sent.is_empty() {
        run.apply(r)?;
    }
    let _ = BaselineKind::Main;
    Ok(())
}

fn main() {
    let mut rep = Report::new("C15", "Random batches (assertions, writes, channel actions; live, dead, foreign and mistyped handles; values of other types; the same field repeatedly; returned batches sent again) applied by a real engine between other changes to both baselines; each verdict, returned batch, the clock and a full audit of both baselines are compared with a sequential model. A case is one distinct content of the fork");
    for case in 0..rep.scale(1500, 60_000) {
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        if rep.stop() {
            break;
        }
        let mut r = Rng::new(rep.seed, 500 + case);
        let mut run = Run::new();
        let out = guarded(|| history(&mut run, &mut r, 40));
        let e = match out {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("unexpected panic: {p}")),
        };
        for s in &run.shapes {
            rep.eval(*s, true);
        }
        for (k, v) in &run.counts {
            rep.count(k, *v);
        }
        rep.count("histories", 1);
        rep.sample(|| run.w.log.iter().rev().find(|l| l.starts_with("apply")).cloned().unwrap_or_default());
        if let Some(e) = e {
            if e.starts_with("between batches") || e.starts_with("set-up") {
                rep.count("histories ended by another property", 1);
                if rep.notes.len() < 5 {
                    rep.notes.push(format!("case {case}: {e}"));
                }
                continue;
            }
            let mut d = vec![format!("case {case}")];
            d.extend(run.w.log.iter().cloned());
            rep.violation(e.chars().filter(|c| !c.is_ascii_digit()).take(80).collect::<String>(), e, d);
        }
    }
    rep.finish()
}
