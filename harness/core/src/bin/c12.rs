//! Time arithmetic against 128-bit integers.
use tp_client::baseline::BaselineKind;
use tp_client::engine::Engine;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::*;
use vcore::*;

fn pick(r: &mut Rng) -> i32 {
    const B: [i32; 24] = [
        0, 1, -1, 2, -2, 999, 1000, 1001, -999, -1000, -1001, 1023, 1024, 1025, -1023, -1024, -1025, 500, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 1 << 30, -(1 << 30),
    ];
    match r.below(5) {
        0 | 1 => *r.pick(&B),
        2 => r.next() as i32,
        3 => (r.next() as i32) >> r.below(32),
        _ => (1i32 << r.below(31)).wrapping_add(r.below(5) as i32 - 2),
    }
}
fn clamp(x: i128) -> i32 {
    x.clamp(i32::MIN as i128, i32::MAX as i128) as i32
}
fn floor_div(a: i128, b: i128) -> i128 {
    let q = a / b;
    if a % b != 0 && (a < 0) != (b < 0) {
        q - 1
    } else {
        q
    }
}

fn one(a: i32, b: i32, s: i32) -> Result<(), String> {
    let (ta, tb, sc) = (Ticks::new(a), Ticks::from(b), TimeScale::from(s));
    macro_rules! eq {
        ($got:expr, $want:expr, $what:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{} is {g:?}, expected {w:?} (a={a} b={b} scale={s})", $what));
            }
        }};
    }
    let (xa, xb, xs) = (a as i128, b as i128, s as i128);
    eq!(ta.as_millis(), a, "as_millis");
    eq!(ta.as_millis_i64(), a as i64, "as_millis_i64");
    eq!((ta + tb).as_millis(), clamp(xa + xb), "a + b");
    eq!((ta - tb).as_millis(), clamp(xa - xb), "a - b");
    let mul = |x: i128| clamp(floor_div(x * xs, 1024));
    eq!((ta * sc).as_millis(), mul(xa), "a * scale");
    let mut m = ta;
    m += tb;
    eq!(m, ta + tb, "a += b");
    let mut m = ta;
    m -= tb;
    eq!(m, ta - tb, "a -= b");
    let mut m = ta;
    m *= sc;
    eq!(m, ta * sc, "a *= scale");
    let w = TimeWarp { offset: tb, scale: sc };
    let ct = ChannelTime::from(ta);
    let exp = mul(clamp(xa - xb) as i128);
    eq!(w.apply(ct).ticks().as_millis(), exp, "warp");
    eq!(ct.warp(&w).ticks().as_millis(), exp, "ChannelTime::warp");
    let w = TimeWarp::from((tb, sc));
    eq!(w.clone().apply(ct).ticks().as_millis(), exp, "a cloned warp");
    eq!(TimeWarp::default().apply(ct), ct, "the default warp");
    eq!(ta * TimeScale::default(), ta, "the default scale");
    // seconds, by the declared resolution
    let tps = Ticks::ticks_per_second() as i128;
    eq!(ta.as_secs() as i128, xa / tps, "as_secs");
    let exact = a as f64 / tps as f64;
    let f = ta.as_secs_f32() as f64;
    if (f - exact).abs() > exact.abs() * 2e-7 {
        return Err(format!("as_secs_f32 of {a} is {f}"));
    }
    // scales in units of their denominator
    eq!(1u32 << TimeScale::denominator_as_log2(), TimeScale::denominator() as u32, "denominator");
    eq!(sc.numerator(), s, "numerator");
    eq!(sc.numerator_as_i64(), s as i64, "numerator_as_i64");
    let exact = s as f64 / 1024.0;
    eq!(sc.as_f64(), exact, "TimeScale::as_f64");
    if (sc.as_f32() as f64 - exact).abs() > exact.abs() * 2e-7 {
        return Err(format!("TimeScale::as_f32 of {s} is {}", sc.as_f32()));
    }
    // order
    eq!(ta.cmp(&tb), a.cmp(&b), "order of ticks");
    eq!(ta == tb, a == b, "equality of ticks");
    eq!(ChannelTime::from(ta).cmp(&ChannelTime::from(tb)), a.cmp(&b), "order of channel times");
    eq!(RealmTime::from(ta).cmp(&RealmTime::from(tb)), a.cmp(&b), "order of realm times");
    Ok(())
}

fn clock(r: &mut Rng, log: &mut Vec<i32>) -> Result<(), String> {
    let (mut e, _s) = Engine::new(Realm::new(RealmID::new("clock".into())), if r.chance(1, 2) { None } else { Some(3) });
    if e.realm().time().ticks().as_millis() != 0 {
        return Err("a new realm's clock is not 0".into());
    }
    let mut now: i128 = 0;
    let neg = r.chance(1, 4);
    for _ in 0..1 + r.below(30) {
        let mut d = pick(r);
        if !neg && d < 0 {
            d = if d == i32::MIN { 0 } else { -d };
        }
        if r.chance(1, 2) {
            d %= 100_000;
        }
        log.push(d);
        let before = e.realm().time();
        match r.below(8) {
            0 => {
                // set directly
                *e.realm_mut().time_mut().ticks_mut() += Ticks::new(d);
            }
            _ => e.tick(Ticks::new(d)),
        }
        now = clamp(now + d as i128) as i128;
        let got = e.realm().time();
        if got.ticks().as_millis() as i128 != now {
            return Err(format!("the clock is {:?}, expected {now}", got));
        }
        if d >= 0 && got < before {
            return Err(format!("the clock went back from {before:?} to {got:?} on a step of {d}"));
        }
        // nothing but time passes
        if r.chance(1, 4) {
            if e.try_apply().is_ok() {
                return Err("a batch nobody sent".into());
            }
            if e.realm().time() != got {
                return Err("the clock moved without a tick".into());
            }
        }
        let _ = e.realm().baseline(BaselineKind::Main);
    }
    Ok(())
}

fn main() {
    let mut rep = Report::new("C12", "Sums, differences, products, compound assignments, warps, conversions and comparisons of boundary and random 32-bit operands against 128-bit arithmetic rounded down and clamped; and random sequences of clock advances of an engine against the clamped running sum. A case is one triple of operands, or one sequence");
    let n = rep.scale(600_000, 40_000_000);
    let mut r = Rng::new(rep.seed, 1);
    for i in 0..n {
        if i % 4096 == 0 && rep.stop() {
            break;
        }
        let (a, b, s) = (pick(&mut r), pick(&mut r), pick(&mut r));
        match guarded(|| one(a, b, s)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => rep.violation(e.split(" is ").next().unwrap_or("").to_string(), e, vec![]),
            Err(p) => rep.violation("panic", format!("unexpected panic: {p} (a={a} b={b} scale={s})"), vec![]),
        }
        let (xa, xb, xs) = (a as i128, b as i128, s as i128);
        let fit = |x: i128| x == clamp(x) as i128;
        rep.count("sums out of range", !fit(xa + xb) as u64);
        rep.count("differences out of range", !fit(xa - xb) as u64);
        rep.count("products out of range", !fit(xa * xs >> 10) as u64);
        rep.count("products that round", (xa * xs % 1024 != 0) as u64);
        rep.count("negative products that round", (xa * xs % 1024 != 0 && xa * xs < 0) as u64);
        if i % 16 == 0 {
            rep.eval((a, b, s), true);
        } else {
            rep.evaluations += 1;
        }
        rep.sample(|| format!("a={a} b={b} scale={s}"));
    }
    rep.count("operand triples", rep.evaluations);
    for c in 0..rep.scale(4000, 100_000) {
        if rep.stop() {
            break;
        }
        let mut r = Rng::new(rep.seed, 1000 + c);
        let mut log = vec![];
        match guarded(|| clock(&mut r, &mut log)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => rep.violation("clock", format!("{e} after steps {log:?}"), vec![]),
            Err(p) => rep.violation("clock panic", format!("unexpected panic: {p} after steps {log:?}"), vec![]),
        }
        rep.count("clock advances", log.len() as u64);
        rep.eval(log, true);
    }
    rep.finish()
}
