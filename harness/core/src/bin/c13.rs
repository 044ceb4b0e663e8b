//! Interpolated values against their endpoints.
use keyframe::functions::*;
use keyframe::{ease, CanTween, EasingFunction};
use std::fmt::Debug;
use tp_client::contract::properties::channels::misc::{IntTweenable, JumpTweenable};
use vcore::*;

/// Blends in ascending order, from 0 to 1.
fn blends(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut v = vec![0.0, 1.0, 0.5, f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 5e-324, 1e-300, 0.1, 0.25, 0.999999];
    for _ in 0..n {
        v.push((r.next() >> 11) as f64 / (1u64 << 53) as f64);
    }
    v.sort_by(|a, b| a.total_cmp(b));
    v
}

trait Int: Copy + PartialOrd + PartialEq + Debug + 'static {
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self;
    fn near(self, r: &mut Rng) -> Self;
    fn blend(a: Self, b: Self, t: f64) -> Self;
    fn blend32(a: Self, b: Self, t: f32) -> Self;
    fn eased(f: usize, a: Self, b: Self, t: f64) -> Self;
    fn wide(self) -> i128;
}

const N_EASE: usize = 20;
/// Easing functions that stay in [0, 1].
fn eased<T: CanTween>(f: usize, a: T, b: T, t: f64) -> T {
    fn go<T: CanTween, F: EasingFunction>(f: F, a: T, b: T, t: f64) -> T {
        ease(f, a, b, t)
    }
    match f {
        0 => go(Linear, a, b, t),
        1 => go(Step, a, b, t),
        2 => go(Hold, a, b, t),
        3 => go(EaseIn, a, b, t),
        4 => go(EaseOut, a, b, t),
        5 => go(EaseInOut, a, b, t),
        6 => go(EaseInQuad, a, b, t),
        7 => go(EaseOutQuad, a, b, t),
        8 => go(EaseInOutQuad, a, b, t),
        9 => go(EaseInCubic, a, b, t),
        10 => go(EaseOutCubic, a, b, t),
        11 => go(EaseInOutCubic, a, b, t),
        12 => go(EaseInQuart, a, b, t),
        13 => go(EaseOutQuart, a, b, t),
        14 => go(EaseInOutQuart, a, b, t),
        15 => go(EaseInQuint, a, b, t),
        16 => go(EaseOutQuint, a, b, t),
        17 => go(EaseInOutQuint, a, b, t),
        18 => go(keyframe::functions::BezierCurve::from([0.3, 0.0].into(), [0.7, 1.0].into()), a, b, t),
        _ => go(keyframe::functions::BezierCurve::from([0.0, 0.9].into(), [0.1, 1.0].into()), a, b, t),
    }
}

macro_rules! ints { ($($t:ident)*) => { $(
    impl Int for $t {
        const NAME: &'static str = stringify!($t);
        fn gen(r: &mut Rng) -> Self {
            match r.below(6) {
                0 => <$t>::MIN,
                1 => <$t>::MAX,
                2 => (0 as $t).wrapping_add(r.below(5) as $t).wrapping_sub(2),
                3 => (r.next() as $t) >> r.below(<$t>::BITS as usize),
                4 => (<$t>::MAX / 2).wrapping_add(r.below(3) as $t),
                _ => r.next() as $t,
            }
        }
        fn near(self, r: &mut Rng) -> Self {
            let n = 1usize << (1 + r.below(7));
            let d = r.below(n) as $t;
            if r.chance(1, 2) { self.saturating_add(d) } else { self.saturating_sub(d) }
        }
        fn blend(a: Self, b: Self, t: f64) -> Self {
            <IntTweenable<$t> as CanTween>::ease(IntTweenable(a), IntTweenable(b), t).0
        }
        fn blend32(a: Self, b: Self, t: f32) -> Self {
            <IntTweenable<$t> as CanTween>::ease(IntTweenable(a), IntTweenable(b), t).0
        }
        fn eased(f: usize, a: Self, b: Self, t: f64) -> Self {
            eased(f, IntTweenable(a), IntTweenable(b), t).0
        }
        fn wide(self) -> i128 { self as i128 }
    } )* } }
ints!(u8 u16 u32 u64 i8 i16 i32 i64 usize isize);

fn pair<T: Int>(a: T, b: T, ts: &[f64]) -> Result<u64, String> {
    let err = |what: &str, t: f64, v: T| Err(format!("{}: from {a:?} to {b:?} at {t:e}: {what}, got {v:?}", T::NAME));
    let between = |v: T| if a <= b { a <= v && v <= b } else { b <= v && v <= a };
    let mut n = 0;
    let mut last = a;
    let mut last32: Option<(f32, T)> = None;
    for &t in ts {
        let v = T::blend(a, b, t);
        n += 1;
        if t == 0.0 && v != a {
            return err("not the start at blend 0", t, v);
        }
        if t == 1.0 && v != b {
            return err("not the end at blend 1", t, v);
        }
        if !between(v) {
            return err("outside its endpoints", t, v);
        }
        if (a <= b && v < last) || (a > b && v > last) {
            return err(&format!("went back from {last:?}"), t, v);
        }
        last = v;
        // on the straight line, but for rounding
        let (way, all) = ((v.wide() - a.wide()) as f64, (b.wide() - a.wide()) as f64);
        if (way - all * t).abs() > 1.0 + 1e-6 * all.abs() {
            return err("far from the straight line", t, v);
        }
        // the same with single precision
        let t32 = t as f32;
        let v = T::blend32(a, b, t32);
        if (t32 == 0.0 && v != a) || (t32 == 1.0 && v != b) || !between(v) {
            return err("wrong with a single-precision blend", t, v);
        }
        if let Some((p, w)) = last32 {
            if p <= t32 && ((a <= b && v < w) || (a > b && v > w)) {
                return err("went back with a single-precision blend", t, v);
            }
        }
        last32 = Some((t32, v));
    }
    Ok(n)
}

fn functions<T: Int>(f: usize, a: T, b: T, ts: &[f64]) -> Result<(), String> {
    let err = |what: &str, t: f64, v: T| Err(format!("{}: easing {f} from {a:?} to {b:?} at {t:e}: {what}, got {v:?}", T::NAME));
    let mut last = a.wide();
    for &t in ts {
        let v = T::eased(f, a, b, t);
        let (lo, hi) = (a.wide().min(b.wide()), a.wide().max(b.wide()));
        if v.wide() < lo || v.wide() > hi {
            return err("outside its endpoints", t, v);
        }
        // what the function itself gives, blended with plain floats, moves one way
        let y = eased(f, 0.0f64, 1.0f64, t);
        if (y == 0.0 && v != a) || (y == 1.0 && v != b) {
            return err("not the endpoint", t, v);
        }
        // the curves by their definition, polynomials may round by a hair
        if f <= 1 && ((a <= b && v.wide() < last) || (a > b && v.wide() > last)) {
            return err("went back", t, v);
        }
        last = v.wide();
    }
    Ok(())
}

fn jump<T: Copy + PartialEq + Debug>(a: T, b: T, ts: &[f64]) -> Result<(), String> {
    for &t in ts {
        let v = JumpTweenable::ease(JumpTweenable(a), JumpTweenable(b), t).0;
        let want = if t < 1.0 { a } else { b };
        if v != want {
            return Err(format!("jump from {a:?} to {b:?} at {t:e} gives {v:?}"));
        }
        let t32 = t as f32;
        let v = JumpTweenable::ease(JumpTweenable(a), JumpTweenable(b), t32).0;
        let want = if t32 < 1.0 { a } else { b };
        if v != want {
            return Err(format!("jump from {a:?} to {b:?} at {t32:e} (f32) gives {v:?}"));
        }
        for f in [0, 1, 3, 5] {
            let y = eased(f, 0.0f64, 1.0f64, t);
            let v = eased(f, JumpTweenable(a), JumpTweenable(b), t).0;
            if (y < 1.0 && v != a) || (y == 1.0 && v != b) {
                return Err(format!("jump with easing {f} from {a:?} to {b:?} at {t:e} gives {v:?}"));
            }
        }
    }
    Ok(())
}

fn report(rep: &mut Report, key: String, out: Result<Result<(), String>, String>) {
    match out {
        Ok(Ok(())) => {}
        Ok(Err(e)) => rep.violation(key, e, vec![]),
        Err(p) => rep.violation(format!("{key} panic"), format!("unexpected panic: {p}"), vec![]),
    }
}

fn sweep<T: Int>(rep: &mut Report, n: u64) {
    let mut r = Rng::new(rep.seed, T::NAME.len() as u64 * 131 + T::NAME.as_bytes()[0] as u64);
    for _ in 0..n {
        if rep.stop() {
            return;
        }
        let (a, mut b) = (T::gen(&mut r), T::gen(&mut r));
        if r.chance(1, 4) {
            b = a.near(&mut r);
        }
        let ts = blends(&mut r, 12);
        let mut k = 0;
        let out = guarded(|| pair(a, b, &ts).map(|n| k = n));
        report(rep, format!("{} blend", T::NAME), out);
        let f = r.below(N_EASE);
        let out = guarded(|| functions(f, a, b, &ts));
        report(rep, format!("{} easing {f}", T::NAME), out);
        rep.count(&format!("{} pairs {}", T::NAME, if a <= b { "up" } else { "down" }), 1);
        rep.count("blends", 2 * k + ts.len() as u64);
        let w = a.wide() - b.wide();
        rep.count("pairs wider than half their type", (w.unsigned_abs() > (1u128 << (std::mem::size_of::<T>() * 8 - 1))) as u64);
        rep.eval((T::NAME, a.wide(), b.wide()), a != b);
        rep.sample(|| format!("{} from {a:?} to {b:?}", T::NAME));
    }
}

fn main() {
    let mut rep = Report::new("C13", "Interpolations between boundary and random pairs of every integer type, up and down, at ascending blends in both float precisions and through 20 easing functions: between the endpoints, on the endpoints at 0 and 1, never back; all pairs of 8-bit values; and jumps of several value types. A case is one pair of endpoints");
    let n = rep.scale(2000, 100_000);
    sweep::<u8>(&mut rep, n);
    sweep::<u16>(&mut rep, n);
    sweep::<u32>(&mut rep, n);
    sweep::<u64>(&mut rep, n);
    sweep::<i8>(&mut rep, n);
    sweep::<i16>(&mut rep, n);
    sweep::<i32>(&mut rep, n);
    sweep::<i64>(&mut rep, n);
    sweep::<usize>(&mut rep, n);
    sweep::<isize>(&mut rep, n);
    let ts: Vec<f64> = (0..=16).map(|i| i as f64 / 16.0).chain([0.999, 1e-9]).collect::<Vec<_>>();
    let mut ts = ts;
    ts.sort_by(|a, b| a.total_cmp(b));
    for a in 0..=255u8 {
        if rep.stop() {
            break;
        }
        let out = guarded(|| {
            for b in 0..=255u8 {
                pair(a, b, &ts)?;
                pair(a as i8, b as i8, &ts)?;
            }
            Ok(())
        });
        report(&mut rep, "8-bit pairs".into(), out);
        rep.count("8-bit pairs", 512);
        rep.eval(("all from", a), true);
    }
    let mut r = Rng::new(rep.seed, 5);
    for _ in 0..rep.scale(2000, 50_000) {
        if rep.stop() {
            break;
        }
        let ts = blends(&mut r, 6);
        let (x, y) = (r.next(), r.next());
        let (fx, fy) = (r.below(9) as f32, -1.0 / r.below(9) as f32);
        let out = guarded(|| {
            jump(x, y, &ts)?;
            jump(x & 1 == 1, y & 1 == 1, &ts)?;
            jump(fx, fy, &ts)?;
            jump(i64::MIN, i64::MAX, &ts)?;
            jump(types::raw(types::ohandle(x as usize, y)), types::raw(types::ohandle(y as usize, x)), &ts)?;
            jump(["a", "b", ""][x as usize % 3], ["c", "d"][y as usize % 2], &ts)
        });
        report(&mut rep, "jump".into(), out);
        rep.count("jumps", ts.len() as u64 * 6);
        rep.eval(("jump", x, y), true);
    }
    rep.finish()
}
