//! Arena histories against a map of live handles, with drop-counted values.
use arena::generational_arena as ga;
use arena::{Arena, Index};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use vcore::report::h64;
use vcore::*;

#[derive(Default)]
struct Drops {
    /// instances alive per token id
    live: HashMap<u64, i64>,
    bad: Vec<String>,
}
type Reg = Rc<RefCell<Drops>>;

/// A stored value: knows who it is, and counts its instances.
struct Tok {
    id: u64,
    val: u64,
    reg: Reg,
}
impl Tok {
    fn new(id: u64, reg: &Reg) -> Self {
        *reg.borrow_mut().live.entry(id).or_insert(0) += 1;
        Tok { id, val: id ^ 0x55, reg: reg.clone() }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        *self.reg.borrow_mut().live.entry(self.id).or_insert(0) += 1;
        Tok { id: self.id, val: self.val, reg: self.reg.clone() }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let mut r = self.reg.borrow_mut();
        let n = r.live.entry(self.id).or_insert(0);
        *n -= 1;
        if *n < 0 {
            let id = self.id;
            r.bad.push(format!("value {id} dropped more often than it was made"));
        }
    }
}

type Raw = (usize, u64);
fn raw(i: Index<Tok>) -> Raw {
    let g: ga::Index = i.into();
    g.into_raw_parts()
}
fn idx(r: Raw) -> Index<Tok> {
    Index::new(ga::Index::from_raw_parts(r.0, r.1))
}

#[derive(Clone, Default)]
struct Model {
    live: BTreeMap<Raw, (u64, u64)>,
}

macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// An entry seen by a traversal: its handle, if the traversal gives one, and the value.
type Seen = (Option<Raw>, u64, u64);

/// Drives an iterator with a random mix of operations and compares with the
/// expected entries in order.
fn drive<I, F>(mut it: I, exact: bool, want: &[Seen], rng: &mut Rng, see: F, what: &str) -> Result<(), String>
where
    I: DoubleEndedIterator,
    F: Fn(I::Item) -> Seen,
{
    let (mut lo, mut hi) = (0usize, want.len());
    let mode = rng.below(6);
    for step in 0.. {
        let left = hi - lo;
        let sh = it.size_hint();
        ensure!(sh.0 <= left && sh.1.map_or(true, |u| u >= left), "{what}: size_hint {sh:?} with {left} left");
        if exact {
            ensure!(sh == (left, Some(left)), "{what}: size_hint {sh:?} with {left} left at step {step}");
        }
        let op = match mode {
            0 => 0,
            1 => 1,
            2 => rng.below(2),
            _ => rng.below(4),
        };
        let (got, exp) = match op {
            0 => {
                let e = if left > 0 { lo += 1; Some(lo - 1) } else { None };
                (it.next(), e)
            }
            1 => {
                let e = if left > 0 { hi -= 1; Some(hi) } else { None };
                (it.next_back(), e)
            }
            2 => {
                let n = rng.below(4);
                let e = if left > n { lo += n + 1; Some(lo - 1) } else { lo = hi; None };
                (it.nth(n), e)
            }
            _ => {
                let n = rng.below(4);
                let e = if left > n { hi -= n + 1; Some(hi) } else { hi = lo; None };
                (it.nth_back(n), e)
            }
        };
        match (got.map(&see), exp) {
            (None, None) => {
                for _ in 0..3 {
                    ensure!(it.next().is_none() && it.next_back().is_none(), "{what}: yields again after its end");
                }
                return Ok(());
            }
            (Some(g), Some(e)) => ensure!(g == want[e], "{what}: step {step} gave {g:?}, expected {:?}", want[e]),
            (g, e) => {
                return Err(format!("{what}: step {step} gave {g:?}, expected {:?} ({left} left)", e.map(|e| want[e])))
            }
        }
    }
    Ok(())
}

struct Run {
    a: Arena<Tok>,
    m: Model,
    dead: Vec<Raw>,
    reg: Reg,
    next: u64,
    ever: HashSet<Raw>,
}

impl Run {
    fn tok(&mut self) -> Tok {
        self.next += 1;
        Tok::new(self.next, &self.reg)
    }
    fn entries(&self) -> Vec<(Raw, (u64, u64))> {
        // traversal order is by slot
        let mut v: Vec<_> = self.m.live.iter().map(|(k, v)| (*k, *v)).collect();
        v.sort_by_key(|e| e.0 .0);
        v
    }
    fn insert(&mut self) -> Result<(), String> {
        let t = self.tok();
        let (id, val) = (t.id, t.val);
        let i = self.a.insert(t);
        let r = raw(i);
        ensure!(!self.m.live.contains_key(&r), "insert returned the handle {r:?} of a live entry");
        ensure!(!self.ever.contains(&r), "insert returned handle {r:?}, which was issued before");
        ensure!(!self.m.live.keys().any(|k| k.0 == r.0), "insert returned a handle to a slot in use");
        self.ever.insert(r);
        self.m.live.insert(r, (id, val));
        Ok(())
    }
    fn dead_access(&mut self, r: Raw) -> Result<(), String> {
        let i = idx(r);
        ensure!(!self.a.contains(i), "contains({r:?}) is true for a dead handle");
        ensure!(self.a.get(i).is_none(), "get({r:?}) of a dead handle returned a value");
        ensure!(self.a.get_mut(i).is_none(), "get_mut({r:?}) of a dead handle returned a value");
        let a = &mut self.a;
        ensure!(guarded(|| a[i].id).is_err(), "indexing with dead handle {r:?} returned a value");
        ensure!(guarded(|| a[i].val = 1).is_err(), "mutably indexing with dead handle {r:?} returned a value");
        ensure!(self.a.remove(i).is_none(), "remove({r:?}) of a dead handle returned a value");
        Ok(())
    }
    fn live_access(&mut self, r: Raw, w: (u64, u64)) -> Result<(), String> {
        let i = idx(r);
        ensure!(self.a.contains(i), "contains({r:?}) is false for a live handle");
        let g = self.a.get(i).map(|t| (t.id, t.val));
        ensure!(g == Some(w), "get({r:?}) = {g:?}, expected {w:?}");
        let g = self.a.get_mut(i).map(|t| (t.id, t.val));
        ensure!(g == Some(w), "get_mut({r:?}) = {g:?}, expected {w:?}");
        ensure!((self.a[i].id, self.a[i].val) == w, "[{r:?}] is not {w:?}");
        Ok(())
    }
    fn audit(&mut self, rng: &mut Rng, deep: bool) -> Result<(), String> {
        ensure!(self.a.len() == self.m.live.len(), "len() {} with {} live", self.a.len(), self.m.live.len());
        ensure!(self.a.is_empty() == self.m.live.is_empty(), "is_empty() wrong");
        ensure!(self.a.capacity() >= self.a.len(), "capacity() below len()");
        let e = self.entries();
        let some: Vec<_> = if deep { e.clone() } else { (0..4.min(e.len())).map(|_| *rng.pick(&e)).collect() };
        for (r, w) in some {
            self.live_access(r, w)?;
        }
        let n = self.dead.len();
        let picks: Vec<usize> = if deep { (0..n).collect() } else { (0..n.min(4)).map(|_| rng.below(n)).collect() };
        for p in picks {
            self.dead_access(self.dead[p])?;
        }
        // neighbours of live handles: same slot, other generation
        for _ in 0..2 {
            if !e.is_empty() {
                let r = rng.pick(&e).0;
                for f in [(r.0, r.1.wrapping_add(1)), (r.0, r.1.wrapping_sub(1)), (r.0 + (1 << 20), r.1), (usize::MAX, u64::MAX)] {
                    if !self.m.live.contains_key(&f) {
                        self.dead_access(f)?;
                    }
                }
            }
        }
        let want: Vec<Seen> = e.iter().map(|(r, w)| (Some(*r), w.0, w.1)).collect();
        let see = |(i, t): (Index<Tok>, &Tok)| (Some(raw(i)), t.id, t.val);
        let seem = |(i, t): (Index<Tok>, &mut Tok)| (Some(raw(i)), t.id, t.val);
        drive(self.a.iter(), true, &want, rng, see, "iter")?;
        drive(self.a.iter_mut(), true, &want, rng, seem, "iter_mut")?;
        drive((&mut self.a).into_iter(), true, &want, rng, seem, "&mut into_iter")?;
        ensure!(self.a.iter().len() == want.len() && self.a.iter_mut().len() == want.len(), "ExactSizeIterator::len wrong");
        if !want.is_empty() && rng.chance(1, 3) {
            // partly used iterators report their exact remaining length; a clone continues independently
            let k = rng.below(want.len() + 1);
            let kb = rng.below(want.len() + 1 - k);
            let mut it = self.a.iter();
            for _ in 0..k {
                it.next();
            }
            for _ in 0..kb {
                it.next_back();
            }
            ensure!(it.len() == want.len() - k - kb, "len() of a partly used iter");
            let c = it.clone();
            let tail = &want[k..want.len() - kb];
            drive(c, true, tail, rng, see, "cloned iter")?;
            drive(it, true, tail, rng, see, "iter after its clone was used")?;
            let rev: Vec<Seen> = self.a.iter().rev().map(see).collect();
            ensure!(rev.iter().rev().eq(want.iter()), "rev() is not the reverse order");
            ensure!(self.a.iter().count() == want.len() && self.a.iter_mut().count() == want.len(), "count() wrong");
            ensure!(self.a.iter().last().map(see) == want.last().copied(), "last() wrong");
            let (mut it, mut im) = (want.len(), 0);
            self.a.iter().for_each(|_| it -= 1);
            self.a.iter_mut().for_each(|_| im += 1);
            ensure!(it == 0 && im == want.len(), "for_each visits another number of entries");
        }
        let r = self.reg.borrow();
        ensure!(r.bad.is_empty(), "{}", r.bad[0]);
        if deep {
            let mut n = 0;
            for (_, w) in &e {
                ensure!(r.live.get(&w.0) == Some(&1), "stored value {} has {:?} instances", w.0, r.live.get(&w.0));
                n += 1;
            }
            let alive = r.live.values().filter(|x| **x > 0).count();
            ensure!(alive == n, "{alive} values alive, {n} stored");
        }
        Ok(())
    }
    fn shape(&self) -> u64 {
        h64((self.m.live.keys().collect::<Vec<_>>(), self.dead.len()))
    }
}

fn history(rep: &mut Report, case: u64, steps: usize) -> Result<(), String> {
    let mut rng = Rng::new(rep.seed, case);
    let rng = &mut rng;
    let reg: Reg = Default::default();
    let a: Arena<Tok> = match rng.below(4) {
        0 => Arena::new(),
        1 => Arena::default(),
        2 => Arena::with_capacity(rng.below(9)),
        _ => Arena::with_capacity(rng.below(if cfg!(miri) { 40 } else { 2000 })),
    };
    let mut x = Run { a, m: Model::default(), dead: vec![], reg: reg.clone(), next: 0, ever: HashSet::new() };
    if rng.chance(1, 4) {
        let n = rng.below(30);
        let toks: Vec<Tok> = (0..n).map(|_| x.tok()).collect();
        let ids: Vec<_> = toks.iter().map(|t| (t.id, t.val)).collect();
        x.a = toks.into_iter().collect();
        let got: Vec<_> = x.a.iter().map(|(i, t)| (raw(i), (t.id, t.val))).collect();
        ensure!(got.iter().map(|g| g.1).eq(ids.iter().copied()), "from_iter holds {got:?}, given {ids:?}");
        for (r, w) in got {
            ensure!(x.ever.insert(r), "from_iter gave one handle twice");
            x.m.live.insert(r, w);
        }
    }
    let grow = rng.below(10); // tendency
    for step in 0..steps {
        let live: Vec<Raw> = x.m.live.keys().copied().collect();
        let k = rng.below(30);
        let mut op = "";
        match k {
            0..=7 => {
                op = "insert";
                let n = if rng.chance(1, 40) { if cfg!(miri) { 20 } else { 300 + rng.below(1200) } } else { 1 + rng.below(3) };
                for _ in 0..n {
                    x.insert()?;
                }
            }
            8..=17 if !live.is_empty() => {
                op = "remove";
                let n = if rng.chance(1, 12) { rng.below(live.len() + 1) } else { 1 + rng.below(if grow < 5 { 2 } else { 5 }) };
                let mut l = live.clone();
                rng.shuffle(&mut l);
                if rng.chance(1, 4) {
                    l.sort(); // in slot order, so that the free list is used in a known pattern
                }
                for r in l.into_iter().take(n) {
                    let w = x.m.live.remove(&r).unwrap();
                    let t = x.a.remove(idx(r)).ok_or_else(|| format!("remove({r:?}) of a live handle returned nothing"))?;
                    ensure!((t.id, t.val) == w, "remove({r:?}) returned another value");
                    drop(t);
                    ensure!(x.reg.borrow().live[&w.0] == 0, "a removed value survives elsewhere");
                    if x.dead.len() < 400 {
                        x.dead.push(r);
                    }
                    ensure!(x.a.remove(idx(r)).is_none(), "second remove({r:?}) returned a value");
                }
            }
            18..=22 if !live.is_empty() => {
                op = "write";
                let r = *rng.pick(&live);
                let v = rng.next();
                match rng.below(4) {
                    0 => x.a[idx(r)].val = v,
                    1 => x.a.get_mut(idx(r)).ok_or("get_mut of a live handle")?.val = v,
                    2 => {
                        for (i, t) in x.a.iter_mut() {
                            if raw(i) == r {
                                t.val = v;
                            }
                        }
                    }
                    _ => {
                        for (i, t) in (&mut x.a).into_iter().rev() {
                            if raw(i) == r {
                                t.val = v;
                            }
                        }
                    }
                }
                x.m.live.get_mut(&r).unwrap().1 = v;
            }
            23 => {
                op = "reserve";
                let n = rng.below(40);
                x.a.reserve(n);
                ensure!(x.a.capacity() >= n, "capacity after reserve");
            }
            24 => {
                // a clone is an equal, independent arena with the same handles
                op = "clone";
                let c = x.a.clone();
                let old = std::mem::replace(&mut x.a, c);
                if rng.chance(1, 2) {
                    let keep = std::mem::replace(&mut x.a, old);
                    drop(keep);
                } else {
                    drop(old);
                }
            }
            25 => {
                op = "owned traversal of a clone";
                let c = x.a.clone();
                let want: Vec<Seen> = x.entries().iter().map(|e| (None, e.1 .0, e.1 .1)).collect();
                drive(c.into_iter(), true, &want, rng, |t| (None, t.id, t.val), "into_iter")?;
                let g: ga::Arena<Tok> = x.a.clone().into();
                ensure!(g.len() == want.len(), "conversion to the inner arena has another length");
                for (r, w) in x.entries() {
                    let t = g.get(ga::Index::from_raw_parts(r.0, r.1));
                    ensure!(t.map(|t| (t.id, t.val)) == Some(w), "conversion to the inner arena lost {r:?}");
                }
            }
            26 if !live.is_empty() => {
                // handles as keys
                op = "handles";
                let mut all = live.clone();
                all.extend(x.dead.iter().rev().take(20));
                for _ in 0..10 {
                    let (p, q) = (*rng.pick(&all), *rng.pick(&all));
                    let (i, j) = (idx(p), idx(q));
                    ensure!((i == j) == (p == q), "handles {p:?} and {q:?}: == is {}", i == j);
                    ensure!((i != j) == (p != q), "handles {p:?} and {q:?}: != is {}", i != j);
                    ensure!(p != q || hash_of(&i) == hash_of(&j), "equal handles hash differently");
                    let c = i.cmp(&j);
                    ensure!((c == std::cmp::Ordering::Equal) == (p == q), "handles {p:?} and {q:?} compare {c:?}");
                    ensure!(c == j.cmp(&i).reverse(), "ordering of handles is not antisymmetric");
                    ensure!(i.partial_cmp(&j) == Some(c), "partial_cmp and cmp disagree");
                    let k = i.clone();
                    ensure!(k == i && raw(k) == p, "a cloned handle differs");
                }
                let set: HashSet<Index<Tok>> = all.iter().map(|r| idx(*r)).collect();
                let tree: std::collections::BTreeSet<Index<Tok>> = all.iter().map(|r| idx(*r)).collect();
                let want: HashSet<Raw> = all.iter().copied().collect();
                ensure!(set.len() == want.len() && tree.len() == want.len(), "handles merge as keys of a set");
            }
            _ => {}
        }
        if op.is_empty() {
            continue;
        }
        let deep = rng.chance(1, 25) || step + 1 == steps;
        x.audit(rng, deep).map_err(|e| format!("after {op} at step {step}: {e}"))?;
        let reused = x.m.live.keys().any(|r| r.1 > 0);
        rep.eval(x.shape(), reused || x.m.live.len() > 1);
        rep.count(op, 1);
        if step % 50 == 7 {
            rep.sample(|| format!("{} live, {} dead handles; after {op}; live (slot, generation): {:?}", x.m.live.len(), x.dead.len(), x.m.live.keys().take(12).collect::<Vec<_>>()));
        }
    }
    // the end: by owned traversal, fully or in part, or by drop
    let want: Vec<Seen> = x.entries().iter().map(|e| (None, e.1 .0, e.1 .1)).collect();
    let Run { a, .. } = x;
    match rng.below(3) {
        0 => drop(a),
        1 => drive(a.into_iter(), true, &want, rng, |t| (None, t.id, t.val), "into_iter")?,
        _ => {
            let mut it = a.into_iter();
            for _ in 0..rng.below(want.len() + 1) {
                it.next();
            }
            drop(it);
        }
    }
    let r = reg.borrow();
    ensure!(r.bad.is_empty(), "{}", r.bad[0]);
    ensure!(r.live.values().all(|n| *n == 0), "{} values were never dropped", r.live.values().filter(|n| **n != 0).count());
    Ok(())
}

/// The same basic life cycle for other stored types.
fn other_types(rng: &mut Rng) -> Result<(), String> {
    let mut z: Arena<()> = Arena::new();
    let mut hs = vec![];
    for _ in 0..50 {
        if hs.is_empty() || rng.chance(3, 5) {
            let h = z.insert(());
            ensure!(!hs.contains(&h), "zero-sized values share a handle");
            hs.push(h);
        } else {
            let h = hs.swap_remove(rng.below(hs.len()));
            ensure!(z.remove(h).is_some() && z.remove(h).is_none(), "zero-sized removal");
        }
        ensure!(z.len() == hs.len() && z.iter().count() == hs.len(), "zero-sized length");
    }
    let mut s: Arena<Option<String>> = Arena::new();
    let (a, b) = (s.insert(None), s.insert(Some("x".into())));
    ensure!(s.get(a) == Some(&None) && s[b].as_deref() == Some("x"), "option values");
    ensure!(s.remove(a) == Some(None), "a stored None is a value");
    let c = s.insert(Some("y".into()));
    ensure!(c != a && s.get(a).is_none() && s[c].as_deref() == Some("y"), "slot reuse");
    Ok(())
}

/// Sizes past those of the random histories: more than 65536 entries, and
/// more than 65536 lives of one slot.
fn large(n: u64, rng: &mut Rng) -> Result<(), String> {
    let reg: Reg = Default::default();
    let raw_parts = |i: Index<Tok>| raw(i);
    // in bulk
    let mut a: Arena<Tok> = (0..n).map(|i| Tok::new(i, &reg)).collect();
    ensure!(a.len() == n as usize, "{} entries after collecting {n}", a.len());
    for i in n..n + 20 {
        a.insert(Tok::new(i, &reg));
    }
    let n = n + 20;
    let hs: Vec<(Index<Tok>, u64)> = a.iter().map(|(h, t)| (h, t.id)).collect();
    ensure!(hs.len() == n as usize && a.iter().len() == n as usize, "traversal yields {} of {n}", hs.len());
    let set: HashSet<Raw> = hs.iter().map(|h| raw_parts(h.0)).collect();
    let ids: HashSet<u64> = hs.iter().map(|h| h.1).collect();
    let typed: HashSet<Index<Tok>> = hs.iter().map(|h| h.0).collect();
    ensure!(set.len() == n as usize && ids.len() == n as usize && typed.len() == n as usize, "{} handles, {} values, {n} entries", set.len(), ids.len());
    for (h, id) in &hs {
        ensure!(a.get(*h).map(|t| t.id) == Some(*id) && a.contains(*h), "a handle gives another value among {n}");
    }
    // some go, from both halves of the slots
    let mut gone = vec![];
    let mut kept = vec![];
    for (h, id) in hs {
        if rng.chance(1, 3) {
            ensure!(a.remove(h).map(|t| t.id) == Some(id), "removal among {n} gave another value");
            gone.push(h);
        } else {
            kept.push((h, id));
        }
    }
    ensure!(a.len() == kept.len(), "{} entries, {} alive", a.len(), kept.len());
    for k in 0..gone.len() as u64 / 2 {
        let id = 10_000_000 + k;
        let h = a.insert(Tok::new(id, &reg));
        kept.push((h, id));
    }
    for h in &gone {
        ensure!(a.get(*h).is_none() && a.get_mut(*h).is_none() && !a.contains(*h), "a removed handle is accepted among {n}");
        ensure!(rng.below(50) > 0 || a.remove(*h).is_none(), "a removed handle removed something");
    }
    for (h, id) in &kept {
        ensure!(a.get(*h).map(|t| t.id) == Some(*id), "a handle gives another value among {n}");
        if rng.chance(1, 4) {
            a[*h].val = *id;
        }
    }
    let mut want: Vec<Raw> = kept.iter().map(|h| raw(h.0)).collect();
    want.sort();
    let fwd: Vec<Raw> = a.iter().map(|(h, _)| raw(h)).collect();
    let mut rev: Vec<Raw> = a.iter_mut().rev().map(|(h, _)| raw(h)).collect();
    rev.reverse();
    ensure!(fwd == want && rev == want, "traversal yields other entries than are alive");
    // the length is told exactly, at the start and on the way
    macro_rules! lens {
        ($what:expr, $it:expr) => {{
            let mut it = $it;
            let mut left = want.len();
            loop {
                ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "{}: len() is {} and size_hint() {:?} with {left} entries left", $what, it.len(), it.size_hint());
                if left == 0 {
                    break;
                }
                for _ in 0..rng.below(2 * want.len() / 5) {
                    let got = if rng.chance(1, 2) { it.next().is_some() } else { it.next_back().is_some() };
                    ensure!(got == (left > 0), "{}: traversal of {} entries ends early or late", $what, want.len());
                    left -= got as usize;
                }
            }
        }};
    }
    lens!("iter", a.iter());
    lens!("iter_mut", a.iter_mut());
    {
        let mut it = a.iter();
        let k = rng.below(want.len());
        ensure!(it.nth(k).map(|(h, _)| raw(h)) == want.get(k).copied(), "nth({k}) of {} gives another entry", want.len());
        ensure!(it.count() == want.len() - k - 1, "count() after nth({k}) of {}", want.len());
    }
    ensure!(a.into_iter().map(|t| t.id).collect::<HashSet<_>>() == kept.iter().map(|k| k.1).collect::<HashSet<_>>(), "owned traversal yields other values than are alive");
    ensure!(reg.borrow().bad.is_empty() && reg.borrow().live.values().all(|n| *n == 0), "values not dropped exactly once");
    // many lives of one slot
    let mut a: Arena<u64> = Arena::new();
    let first = a.insert(u64::MAX);
    let mut dead: Vec<Index<u64>> = vec![];
    let check = |a: &mut Arena<u64>, dead: &[Index<u64>], h: Index<u64>, back: usize| -> Result<(), String> {
        if let Some(j) = dead.len().checked_sub(back) {
            let o = dead[j];
            ensure!(o != h && !(o == h), "a new handle equals the one of {back} lives ago");
            ensure!(o.cmp(&h) != std::cmp::Ordering::Equal && o.partial_cmp(&h) == Some(o.cmp(&h)), "a new handle compares equal to the one of {back} lives ago");
            ensure!(a.get(o).is_none() && !a.contains(o), "the handle of {back} lives ago is accepted");
        }
        Ok(())
    };
    for i in 0..n {
        let h = a.insert(i);
        for back in [1usize, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537] {
            if back < 3 || i % 16 == 0 || i + 16 > n {
                check(&mut a, &dead, h, back)?;
            }
        }
        ensure!(a[h] == i && a.len() == 2, "life {i} of a slot reads another value");
        ensure!(a.remove(h) == Some(i), "life {i} of a slot was removed as another value");
        dead.push(h);
    }
    let last = a.insert(1);
    for d in &dead {
        ensure!(a.get(*d).is_none() && *d != last && *d != first, "a handle of an earlier life of the slot is accepted");
    }
    let set: HashSet<Index<u64>> = dead.iter().copied().collect();
    let tree: std::collections::BTreeSet<Index<u64>> = dead.iter().copied().collect();
    ensure!(set.len() == dead.len() && tree.len() == dead.len(), "handles of {} lives merge to {} in a hash set, {} in an ordered one", dead.len(), set.len(), tree.len());
    ensure!(a[first] == u64::MAX && a[last] == 1, "the live values changed");
    Ok(())
}

fn main() {
    let mut rep = Report::new("C01", "Random histories of one arena: insertion (singly and in bulk), removal, writes, reserve, cloning, conversion and every traversal, with drop-counted values. After every operation the live handles, a sample of dead and forged handles and three traversals driven from both ends are compared with a map. A case is one reached set of live handles (slot and generation); non-trivial when it has a reused slot or more than one entry");
    let n = rep.scale(250, 6000);
    for case in 0..n {
        if rep.stop() {
            break;
        }
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        let steps = if cfg!(miri) { 25 } else { 60 + (case % 5) as usize * 60 };
        let r = guarded(|| history(&mut rep, case, steps));
        if let Err(e) = r.and_then(|x| x) {
            let key: String = e.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").chars().take(80).collect();
            rep.violation(key, format!("case {case}: {e}"), vec![]);
        }
        rep.count("histories", 1);
    }
    let seed = rep.seed;
    if !cfg!(miri) && rep.only_case.is_none() && std::env::var("VERIF_SCALE_DIV").is_err() {
        for k in 0..rep.scale(1, 6) {
            let mut r = Rng::new(seed, 800_000 + k);
            let n = 70_000 + r.below(5000) as u64;
            rep.case("large arenas", || large(n, &mut r));
            rep.eval(("large", n), true);
            rep.count("large arenas (over 70000 entries, over 70000 lives of one slot)", 1);
        }
    }
    for k in 0..if cfg!(miri) { 2 } else { 20 } {
        let mut r = Rng::new(seed, 900_000 + k);
        rep.case("other stored types", || other_types(&mut r));
    }
    rep.finish()
}
