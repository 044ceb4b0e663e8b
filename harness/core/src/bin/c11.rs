//! Channels built from random keyframes against the multiset that went in.
use std::collections::BTreeMap;
use tp_client::contract::properties::channels::dyn_channel::*;
use tp_client::contract::properties::channels::*;
use vcore::types::*;
use vcore::*;

type Res = Result<(), String>;

fn gen_times(n: usize, r: &mut Rng) -> (Vec<u64>, &'static str) {
    let special: [f64; 12] = [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, 1.0];
    let mode = r.below(9);
    let mut v: Vec<u64> = (0..n)
        .map(|i| match mode {
            0 => (i as f64).to_bits(),
            1 => ((n - i) as f64).to_bits(),
            2 => special[r.below(12)].to_bits(),
            3 => (r.below(4) as f64 - 1.5).to_bits(),
            4 => r.next(),
            5 => 7.25f64.to_bits(),
            6 => (r.next() as i64 as f64 / 1e9).to_bits(),
            7 if r.chance(1, 4) => [f64::NAN.to_bits(), 0x7ff0_0000_0000_0001, 0xffff_ffff_ffff_ffff, 0x7ff8_0000_0000_1234][r.below(4)],
            7 => (r.below(50) as f64).to_bits(),
            // runs going up and down
            _ => ((if (i / 7) % 2 == 0 { i as i64 } else { -(i as i64) }) as f64).to_bits(),
        })
        .collect();
    let mut what = ["ascending", "descending", "special", "few", "any bits", "all equal", "random", "with NaN", "sawtooth"][mode];
    if r.chance(1, 6) && n > 2 {
        // sorted but for one
        v.sort_by(|a, b| f64::from_bits(*a).total_cmp(&f64::from_bits(*b)));
        let (i, j) = (r.below(n), r.below(n));
        v.swap(i, j);
        what = "one out of place";
    }
    (v, what)
}

fn key(f: &(Val, u64)) -> String {
    format!("{:?}@{:x}", f.0, f.1)
}

fn judge(given: &Frames, got: &Frames) -> Res {
    if given.len() != got.len() {
        return Err(format!("{} keyframes given, the channel holds {}", given.len(), got.len()));
    }
    let mut m: BTreeMap<String, i64> = BTreeMap::new();
    for f in given {
        *m.entry(key(f)).or_insert(0) += 1;
    }
    for f in got {
        let e = m.entry(key(f)).or_insert(0);
        *e -= 1;
        if *e < 0 {
            return Err(format!("the channel holds keyframe {} more often than it was given", key(f)));
        }
    }
    let ts: Vec<f64> = got.iter().map(|f| f64::from_bits(f.1)).filter(|t| !t.is_nan()).collect();
    for w in ts.windows(2) {
        if w[0] > w[1] {
            return Err(format!("time {} comes before {}", w[0], w[1]));
        }
    }
    Ok(())
}

/// Iterators over the keyframes that differ in what they say about themselves.
struct Odd<I>(I, usize);
impl<I: Iterator> Iterator for Odd<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            _ => (self.0.size_hint().0.min(1), None),
        }
    }
}

fn build<T: Prop>(f: &Frames, how: usize) -> (Frames, Frames, Frames) {
    let it = f.iter().map(|(v, t)| Keyframe::new(T::from_val(v), f64::from_bits(*t)));
    let mut c: Channel<T> = match how {
        0..=2 => Channel::new(Odd(it, how)),
        3 => Channel::new(it),
        _ => Channel::new(it.collect::<Vec<_>>().into_iter()),
    };
    let a = chan_frames(&c);
    let b = c.keyframes_mut().iter().map(|k| (k.value().val(), k.time().to_bits())).collect();
    let d: DynChannel = T::dyn_chan(c);
    let (_, _, e) = dyn_chan_frames(&d);
    (a, b, e)
}

fn main() {
    let mut rep = Report::new("C11", "Channels of every property type from 0 to 300 (and some of over 5000 and over 66000) keyframes with ascending, descending, repeated, infinite, signed-zero, NaN and arbitrary-bit times, from iterators with exact and loose size hints; the keyframes of the channel (plain, mutable and dynamic view) are compared with those given as a multiset of value-time pairs, and their times are checked for order. A case is one list of keyframes");
    let n = rep.scale(30_000, 400_000);
    for case in 0..n {
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        if rep.stop() {
            break;
        }
        let mut r = Rng::new(rep.seed, case);
        let (ty, list) = if case < 280 { (case as usize % 14, case as usize / 14 % 2 == 1) } else { (r.below(14), r.chance(1, 3)) };
        let size = match if case % 1500 == 700 || case % 6000 == 2001 { 9 } else { r.below(10) } {
            0 => r.below(3),
            1 => 19 + r.below(5),
            2 => 20 + r.below(280),
            _ if case % 1500 == 700 => 5_000 + r.below(5_000),
            _ if case % 6000 == 2001 => 66_000 + r.below(40_000),
            _ => r.below(34),
        };
        let (ts, what) = gen_times(size, &mut r);
        // few distinct values, so that times decide which pair is which
        let pool: Vec<Val> = (0..1 + r.below(6)).map(|_| gen_val(ty, list, &mut r)).collect();
        let many = r.chance(1, 2);
        let frames: Frames = ts.iter().map(|t| (if many { gen_val(ty, list, &mut r) } else { r.pick(&pool).clone() }, *t)).collect();
        let how = r.below(5);
        let out = guarded(|| -> Res {
            let (a, b, c) = dispatch!(ty, list, T => build::<T>(&frames, how));
            judge(&frames, &a)?;
            if a != b || a != c {
                return Err("the views of the channel disagree about its keyframes".into());
            }
            Ok(())
        });
        let e = match out {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("unexpected panic: {p}")),
        };
        if let Some(e) = e {
            rep.violation(
                e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>(),
                format!("case {case}: {} keyframes of {}{}, {what}: {e}", size, if list { "Vec " } else { "" }, TYPE_NAMES[ty]),
                frames.iter().take(40).map(|f| format!("{:?} at {}", f.0.cells, f64::from_bits(f.1))).collect(),
            );
        }
        rep.count(&format!("times {what}"), 1);
        rep.count("keyframes", size as u64);
        rep.eval((ty, list, ts, how), size > 1);
        rep.sample(|| format!("{} keyframes of {}, times {what}", size, TYPE_NAMES[ty]));
    }
    rep.finish()
}
