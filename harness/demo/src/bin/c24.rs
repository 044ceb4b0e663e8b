//! Runs the systems of the circle demo in random orders, and watches what each
//! of them does to the objects and to what is drawn.
use bevy::app::App;
use bevy::prelude::{Camera, Transform};
use bevy_prototype_lyon::draw::DrawMode;
use bevy_prototype_lyon::entity::Shape;
use std::collections::HashMap;
use tp_client::action::Collaction;
use tp_client::baseline::BaselineKind;
use tp_client::contract::*;
use tp_client::engine::{ActionSender, Engine};
use tp_client::object::ObjectHandle;
use tp_client::time::Ticks;
use vcore::report::h64;
use vcore::types::*;
use vcore::world::*;
use vcore::*;

// the demo's own type is private: this one has its name, version and states
vcore::contract!(Mine, MineStates { x: f32, y: f32 }, MineChannels {}, "teleportal.app-circle_game-Circle", (0, 0, 1));

const SIDE: usize = 10;
const KINDS: [BaselineKind; 2] = [BaselineKind::Fork, BaselineKind::Main];

type At = [f32; 2];

fn bits(a: At) -> [u32; 2] {
    [a[0].to_bits(), a[1].to_bits()]
}

/// Everything that a system can change.
#[derive(Clone)]
struct Seen {
    states: [HashMap<ObjectHandle, At>; 2],
    transforms: Vec<Option<Transform>>,
    other: Vec<u64>,
    clock: i32,
}

fn states(app: &App, kind: BaselineKind) -> Result<HashMap<ObjectHandle, At>, String> {
    let engine = app.world.resource::<Engine>().ok_or("the engine is gone")?;
    let b = engine.realm().baseline(kind);
    let mut m = HashMap::new();
    for (h, o) in b.iter_objects() {
        let c = Mine::new(o.contract());
        let get = |id| -> Result<f32, String> { Ok(b.bind_state(id, h).and_then(|s| b.state(s).map(|v| v.value)).map_err(|e| e.to_string())?) };
        m.insert(h, [get(c.states().x())?, get(c.states().y())?]);
    }
    Ok(m)
}

fn write(app: &App, kind: BaselineKind, h: ObjectHandle, to: At) -> Result<(), String> {
    let mut engine = app.world.resource_mut::<Engine>().ok_or("the engine is gone")?;
    let b = engine.realm_mut().baseline_mut(kind);
    let c = Mine::new(b.object(h).map_err(|e| e.to_string())?.contract());
    for (id, v) in [(c.states().x(), to[0]), (c.states().y(), to[1])] {
        let s = b.bind_state(id, h).map_err(|e| e.to_string())?;
        b.state_mut(s).map_err(|e| e.to_string())?.value = v;
    }
    Ok(())
}

fn look(app: &App) -> Result<Seen, String> {
    let clock = app.world.resource::<Engine>().ok_or("the engine is gone")?.realm().time().ticks().as_millis();
    Ok(Seen {
        states: [states(app, KINDS[0])?, states(app, KINDS[1])?],
        transforms: app.world.entities.iter().map(|e| e.get::<Transform>().copied()).collect(),
        other: app.world.entities.iter().map(|e| h64(format!("{:?} {:?} {:?}", e.get::<Shape>(), e.get::<DrawMode>(), e.get::<Camera>()))).collect(),
        clock,
    })
}

/// What the walk did to ordinary coordinates.
#[derive(Default)]
struct Walk {
    n: u64,
    sum: [f64; 2],
    sq: [f64; 2],
    xy: f64,
    next: f64,
    low: f64,
    high: f64,
    still: u64,
}

struct Game {
    app: App,
    /// which entity draws which object
    of: HashMap<usize, ObjectHandle>,
    /// entities whose baseline the harness has set to main
    main: Vec<bool>,
    /// objects that no entity draws
    extra: usize,
}

fn start(before: impl FnOnce(&App) -> Result<usize, String>) -> Result<Game, String> {
    let mut app = guarded(circle_game::configure_app).map_err(|p| format!("the app cannot be set up: {p}"))?;
    let extra = before(&app)?;
    let fork0 = states(&app, KINDS[0])?;
    for i in 0..app.startup.len() {
        guarded(|| app.run_startup(i)).map_err(|p| format!("a startup system panicked: {p}"))?;
    }
    let n = app.world.entities.len();
    Ok(Game { app, of: HashMap::new(), main: vec![false; n], extra: extra.max(fork0.len()) })
}

fn check_start(g: &mut Game) -> Result<(), String> {
    let seen = look(&g.app)?;
    if !seen.states[1].is_empty() {
        return Err(format!("{} objects were created in main", seen.states[1].len()));
    }
    if seen.clock != 0 {
        return Err("the clock has moved".into());
    }
    if seen.states[0].len() != SIDE * SIDE + g.extra {
        return Err(format!("{} objects were created in the fork, and not {}", seen.states[0].len() - g.extra, SIDE * SIDE));
    }
    {
        let engine = g.app.world.resource::<Engine>().unwrap();
        let b = engine.realm().baseline(KINDS[0]);
        let mut contracts: Vec<_> = b.iter_objects().map(|(_, o)| o.contract()).collect();
        contracts.dedup();
        for c in contracts {
            let d = b.contract_data(c).map_err(|e| e.to_string())?;
            if d.id() != Mine::ID {
                return Err(format!("an object of {:?}", d.id()));
            }
            if d.objects().len() != seen.states[0].len() {
                return Err(format!("the contract lists {} of {} objects", d.objects().len(), seen.states[0].len()));
            }
        }
    }
    let mut grid: HashMap<[u32; 2], Option<usize>> = HashMap::new();
    for x in 0..SIDE {
        for y in 0..SIDE {
            let f = |v: usize| (v as f32 - SIDE as f32 / 2.) * 50.;
            grid.insert(bits([f(x), f(y)]), None);
        }
    }
    let (mut cameras, mut circles) = (0, 0);
    let mut style = None;
    for (i, e) in g.app.world.entities.iter().enumerate() {
        cameras += e.get::<Camera>().is_some() as usize;
        let shape = match e.get::<Shape>() {
            Some(s) => s,
            None => continue,
        };
        circles += 1;
        if !(shape.radius > 0.) || !shape.radius.is_finite() || bits([shape.center.x, shape.center.y]) != [0, 0] {
            return Err(format!("a circle of {shape:?}"));
        }
        let look = (shape.clone(), *e.get::<DrawMode>().ok_or("a circle that is not drawn")?);
        if *style.get_or_insert_with(|| look.clone()) != look {
            return Err("circles of the same baseline look different".into());
        }
        let t = e.get::<Transform>().ok_or("a circle without a place")?;
        let at = [t.translation.x, t.translation.y];
        if *t != Transform::from_xyz(at[0], at[1], 0.) {
            return Err(format!("a circle starts at {t:?}"));
        }
        match grid.get_mut(&bits(at)) {
            None => return Err(format!("a circle starts at {at:?}, which is not on the grid")),
            Some(Some(_)) => return Err(format!("two circles start at {at:?}")),
            Some(g) => *g = Some(i),
        }
    }
    if cameras != 1 {
        return Err(format!("{cameras} cameras"));
    }
    if circles != SIDE * SIDE {
        return Err(format!("{circles} circles"));
    }
    for (h, at) in &seen.states[0] {
        match grid.get_mut(&bits(*at)) {
            Some(e @ Some(_)) => {
                g.of.insert(e.take().unwrap(), *h);
            }
            // what the harness created before the start is elsewhere
            _ if at[0] > 1000. => (),
            _ => return Err(format!("an object starts at {at:?}, where no circle of its own is")),
        }
    }
    if g.of.len() != circles {
        return Err(format!("{} of {circles} circles have an object", g.of.len()));
    }
    // the entity's own handle, if it can be found by its name
    for (i, h) in &g.of {
        if let Some((p, n)) = g.app.world.entities[*i].raw("ObjectHandle") {
            if n == std::mem::size_of::<ObjectHandle>() && unsafe { std::ptr::read(p as *const ObjectHandle) } != *h {
                return Err("a circle carries the handle of another object".into());
            }
        }
        if let Some((p, 1)) = g.app.world.entities[*i].raw("BaselineKind") {
            if unsafe { *p } != KINDS[0] as u8 {
                return Err("a circle says that its object is in main".into());
            }
        }
    }
    Ok(())
}

/// Runs one system. Returns whether it wrote states, and whether it moved circles.
fn step(g: &mut Game, i: usize, was: &Seen, w: &mut Walk) -> Result<(Seen, bool, bool), String> {
    let name = g.app.systems[i].name.to_string();
    guarded(|| g.app.run_system(i)).map_err(|p| format!("{name} panicked: {p}"))?;
    let is = look(&g.app)?;
    if is.transforms.len() != was.transforms.len() {
        return Err(format!("{name} created entities"));
    }
    if is.other != was.other {
        return Err(format!("{name} changed what a circle looks like"));
    }
    if is.clock != was.clock {
        return Err(format!("{name} moved the clock"));
    }
    for k in 0..2 {
        if is.states[k].len() != was.states[k].len() || is.states[k].keys().any(|h| !was.states[k].contains_key(h)) {
            return Err(format!("{name} created or removed objects of {:?}", KINDS[k]));
        }
    }
    if is.states[1].iter().any(|(h, a)| bits(*a) != bits(was.states[1][h])) {
        return Err(format!("{name} wrote to main"));
    }
    let walkers: HashMap<ObjectHandle, usize> = g.of.iter().filter(|(e, _)| !g.main[**e]).map(|(e, h)| (*h, *e)).collect();
    let (mut wrote, mut moved) = (false, false);
    let mut steps: Vec<(usize, [f64; 2])> = vec![];
    for (h, to) in &is.states[0] {
        let from = was.states[0][h];
        if bits(*to) == bits(from) {
            continue;
        }
        wrote = true;
        if !walkers.contains_key(h) {
            return Err(format!("{name} moved an object of the fork from {from:?} to {to:?}, though no circle of the fork shows it"));
        }
    }
    if wrote {
        for (h, e) in &walkers {
            let (from, to) = (was.states[0][h], is.states[0][h]);
            let mut ordinary = true;
            let mut d = [0f64; 2];
            for c in 0..2 {
                let (f, t) = (from[c] as f64, to[c] as f64);
                ordinary &= f.abs() < 2000.;
                d[c] = t - f;
                let fine = if f.is_nan() {
                    t.is_nan()
                } else if f.is_infinite() {
                    t == f
                } else {
                    d[c].abs() <= 1. + f.abs() / (1 << 22) as f64 + 1e-6
                };
                if !fine {
                    return Err(format!("{name} moved a coordinate from {f} to {t}"));
                }
            }
            if ordinary {
                steps.push((*e, d));
            }
        }
    }
    steps.sort_by_key(|s| s.0);
    for (j, (_, d)) in steps.iter().enumerate() {
        w.n += 1;
        for c in 0..2 {
            w.sum[c] += d[c];
            w.sq[c] += d[c] * d[c];
            w.low = w.low.min(d[c]);
            w.high = w.high.max(d[c]);
            w.still += (d[c] == 0.) as u64;
        }
        w.xy += d[0] * d[1];
        if j > 0 {
            w.next += d[0] * steps[j - 1].1[0] + d[1] * steps[j - 1].1[1];
        }
    }
    for (e, to) in is.transforms.iter().enumerate() {
        let from = was.transforms[e];
        let (to, from) = match (to, from) {
            (Some(a), Some(b)) => (*a, b),
            (None, None) => continue,
            _ => return Err(format!("{name} took or gave a place")),
        };
        let mut rest = to;
        rest.translation.x = from.translation.x;
        rest.translation.y = from.translation.y;
        if format!("{rest:?}") != format!("{from:?}") {
            return Err(format!("{name} changed more than x and y of a circle: {from:?} to {to:?}"));
        }
        if bits([to.translation.x, to.translation.y]) == bits([from.translation.x, from.translation.y]) {
            continue;
        }
        moved = true;
        if !g.of.contains_key(&e) {
            return Err(format!("{name} moved something that is not a circle"));
        }
        shown(g, &is, e).map_err(|x| format!("{name}: {x}"))?;
    }
    Ok((is, wrote, moved))
}

/// The circle is where its object says.
fn shown(g: &Game, s: &Seen, e: usize) -> Result<(), String> {
    let t = s.transforms[e].ok_or("a circle without a place")?.translation;
    let want = s.states[g.main[e] as usize].get(&g.of[&e]).ok_or("the object of a circle is gone")?;
    if bits([t.x, t.y]) != bits(*want) {
        return Err(format!("a circle is drawn at {:?}, and its object of {:?} is at {want:?}", [t.x, t.y], KINDS[g.main[e] as usize]));
    }
    Ok(())
}

fn hostile(r: &mut Rng) -> f32 {
    *r.pick(&[0., -0., 1., -1., f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45, 8388608., 16777216., -16777217., 1e20, 0.1, 255.5, 65536.])
}

fn scenario(r: &mut Rng, frames: usize, w: &mut Walk, rep: &mut Report) -> Result<u64, String> {
    let before = r.chance(1, 3);
    let mut extra = vec![];
    let mut g = start(|app| {
        if !before {
            return Ok(0);
        }
        // objects that are none of the demo's, created before it starts
        let mut engine = app.world.resource_mut::<Engine>().ok_or("the app has no engine")?;
        let b = engine.realm_mut().baseline_mut(KINDS[0]);
        let n = 1 + r.below(5);
        // the contract is registered by the app: look it up by registering it under the same name
        if b.register_contract::<Mine>().is_ok() {
            return Err("the app has not registered its contract in the fork".into());
        }
        let mine = first_contract(b)?;
        for i in 0..n {
            let o = create(b, &mine, [5000. + i as f32, -(i as f32)])?;
            extra.push(o);
        }
        if n > 1 && r.chance(1, 2) {
            b.object_remove::<Mine>(extra.remove(0)).map_err(|e| e.to_string())?;
        }
        Ok(extra.len())
    })?;
    check_start(&mut g)?;
    // calibration: which systems write states, and which only draw
    let n = g.app.systems.len();
    let mut writes = vec![false; n];
    let mut seen = look(&g.app)?;
    for round in 0..2 {
        for i in 0..n {
            let (s, wrote, _) = step(&mut g, i, &seen, w)?;
            seen = s;
            if round == 0 {
                writes[i] |= wrote;
            }
        }
    }
    let pure: Vec<usize> = (0..n).filter(|i| !writes[*i]).collect();
    if pure.len() == n {
        return Err("no system moves the objects".into());
    }
    // the same handles mean objects of main, too, once there are as many
    let mut mains = false;
    let mut script = vec![];
    let mut still: std::collections::HashMap<usize, u32> = Default::default();
    for _ in 0..frames {
        // what others do between frames
        match r.below(6) {
            0 => {
                let mut es: Vec<usize> = g.of.keys().copied().collect();
                es.sort();
                for _ in 0..r.below(20) {
                    let e = *r.pick(&es);
                    write(&g.app, KINDS[g.main[e] as usize], g.of[&e], [hostile(r), hostile(r)])?;
                }
                rep.count("hostile_writes", 1);
                script.push(0);
            }
            1 if !before => {
                if !mains {
                    mains = true;
                    let mut engine = g.app.world.resource_mut::<Engine>().unwrap();
                    let b = engine.realm_mut().baseline_mut(KINDS[1]);
                    let c: Mine = b.register_contract().map_err(|e| format!("main: {e}"))?;
                    let k = g.of.len();
                    for i in 0..k {
                        create(b, &c, [-1000. - i as f32, 3000. + i as f32])?;
                    }
                    if !g.of.values().all(|h| b.object(*h).is_ok()) {
                        return Err("the harness could not create the same handles in main".into());
                    }
                }
                let mut es: Vec<usize> = g.of.keys().copied().collect();
                es.sort();
                for _ in 0..r.below(30) {
                    let e = *r.pick(&es);
                    if let Some((p, 1)) = g.app.world.entities[e].raw("BaselineKind") {
                        g.main[e] = !g.main[e];
                        unsafe { *p = KINDS[g.main[e] as usize] as u8 };
                        rep.count("circles_of_other_baseline", 1);
                    }
                }
                script.push(1);
            }
            2 => {
                // objects of the fork that no circle shows
                let mut engine = g.app.world.resource_mut::<Engine>().unwrap();
                let b = engine.realm_mut().baseline_mut(KINDS[0]);
                let mine = first_contract(b)?;
                if !extra.is_empty() && r.chance(1, 3) {
                    let o = extra.swap_remove(r.below(extra.len()));
                    b.object_remove::<Mine>(o).map_err(|e| e.to_string())?;
                } else {
                    extra.push(create(b, &mine, [7000., 1.])?);
                }
                rep.count("other_objects", 1);
                script.push(2);
            }
            3 => {
                let mut engine = g.app.world.resource_mut::<Engine>().unwrap();
                engine.tick(Ticks::new(r.below(1000) as i32));
                script.push(3);
            }
            4 => {
                // the sender of the app feeds the engine of the app
                let sender = g.app.world.resource::<ActionSender>().ok_or("the app has no sender of actions")?;
                let mut engine = g.app.world.resource_mut::<Engine>().unwrap();
                if engine.try_apply().is_ok() {
                    return Err("the engine had a batch that nobody sent".into());
                }
                sender.send(Collaction::verif_new(vec![])).map_err(|_| "the app's sender has no engine")?;
                match engine.try_apply() {
                    Ok(Ok(_)) => (),
                    _ => return Err("a batch sent through the app's sender did not reach the app's engine".into()),
                }
                rep.count("batches", 1);
                script.push(4);
            }
            _ => (),
        }
        seen = look(&g.app)?;
        let first = seen.clone();
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        let mut during = vec![first];
        let mut any = false;
        for i in order {
            script.push(10 + i);
            let (s, wrote, moved) = step(&mut g, i, &seen, w)?;
            seen = s;
            any |= wrote;
            if !writes[i] && wrote {
                return Err(format!("{} sometimes moves objects", g.app.systems[i].name));
            }
            rep.count("system_runs", 1);
            rep.count("circles_moved", moved as u64);
            during.push(seen.clone());
        }
        let walkers = g.of.keys().filter(|e| !g.main[**e]).count();
        if !any && walkers > 20 {
            return Err("nothing walked during a frame".into());
        }
        // a step of zero in both coordinates is as good as impossible, two in a row more so;
        // far out, a step can be too small to change a number
        for (e, h) in &g.of {
            let (a, b) = (during[0].states[0].get(h), seen.states[0].get(h));
            let stays = matches!((a, b), (Some(a), Some(b)) if !g.main[*e] && bits(*a) == bits(*b) && a.iter().all(|v| v.abs() < 1000.));
            let k = still.entry(*e).or_insert(0);
            *k = if stays { *k + 1 } else { 0 };
            if *k == 2 {
                return Err("a circle of the fork does not walk".into());
            }
            rep.count("walks_seen", !stays as u64);
        }
        // everything is drawn where it was during this frame
        for (e, h) in &g.of {
            let t = seen.transforms[*e].unwrap().translation;
            if !during.iter().any(|d| bits(d.states[g.main[*e] as usize][h]) == bits([t.x, t.y])) {
                return Err(format!("a circle is drawn at {:?}, where its object has not been during the frame ({:?})", [t.x, t.y], seen.states[g.main[*e] as usize][h]));
            }
        }
        if !pure.is_empty() && r.chance(1, 2) {
            for i in &pure {
                let (s, _, _) = step(&mut g, *i, &seen, w)?;
                seen = s;
            }
            for e in g.of.keys() {
                shown(&g, &seen, *e)?;
            }
        }
        rep.count("frames", 1);
        rep.count("places_compared", g.of.len() as u64);
    }
    Ok(h64(&script))
}

fn first_contract(b: &tp_client::baseline::Baseline) -> Result<Mine, String> {
    if let Some((_, o)) = b.iter_objects().next() {
        return Ok(Mine::new(o.contract()));
    }
    // the first contract of any baseline has the same handle
    let mut other = tp_client::baseline::Baseline::new(b.kind());
    let c: Mine = other.register_contract().map_err(|e| e.to_string())?;
    match b.contract_data(c.handle()) {
        Ok(d) if d.id() == Mine::ID => Ok(c),
        _ => Err("the demo's contract is not the first of its baseline".into()),
    }
}

fn create(b: &mut tp_client::baseline::Baseline, c: &Mine, at: At) -> Result<ObjectHandle, String> {
    use tp_client::contract::properties::dynamic::{DynTpPrimitive, DynTpProperty};
    b.object_create(c, at.into_iter().map(DynTpPrimitive::from).map(DynTpProperty::from), [].into_iter()).map_err(|e| format!("the harness could not create an object: {e}"))
}

/// A start that cannot work must not look as if it had.
fn broken_start() -> Result<(), String> {
    let r = start(|app| {
        let mut engine = app.world.resource_mut::<Engine>().ok_or("the app has no engine")?;
        let b = engine.realm_mut().baseline_mut(KINDS[0]);
        let c = first_contract(b)?;
        b.unregister_contract::<Mine>(c.handle()).map_err(|e| e.to_string())?;
        Ok(0)
    });
    match r {
        Err(_) => Ok(()),
        Ok(g) => Err(format!("without its contract the demo starts, with {} entities", g.app.world.entities.len())),
    }
}

fn main() {
    let mut rep = Report::new("C24", "a run of the demo's systems with another sequence of systems and of outside changes");
    let mut w = Walk::default();
    let cases = rep.scale(60, 1500);
    let frames = rep.scale(40, 120) as usize;
    let seed = rep.seed;
    for case in 0..cases {
        if rep.stop() || rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        let mut r = Rng::new(seed ^ 0x24, case);
        match guarded(std::panic::AssertUnwindSafe(|| scenario(&mut r, frames, &mut w, &mut rep))) {
            Ok(Ok(sig)) => {
                rep.eval(sig, true);
                rep.sample(|| format!("case {case}: {frames} frames, {} steps of circles so far", w.n));
            }
            Ok(Err(e)) => rep.violation(e.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").to_string(), format!("case {case}: {e}"), vec![]),
            Err(p) => rep.violation("panic", format!("case {case}: unexpected panic: {p}"), vec![]),
        }
    }
    if rep.only_case.is_none() {
        rep.case("broken start", broken_start);
        rep.case("run", || {
            let mut app = circle_game::configure_app();
            app.run();
            let seen = look(&app)?;
            let drawn: Vec<[u32; 2]> = app.world.entities.iter().filter(|e| e.get::<Shape>().is_some()).map(|e| e.get::<Transform>().map_or([0, 0], |t| bits([t.translation.x, t.translation.y]))).collect();
            // every frame of `run` walks and draws, so no circle is at its start any more
            let far = seen.states[0].values().filter(|s| s.iter().all(|v| v % 50. != 0.)).count();
            if seen.states[0].len() != SIDE * SIDE || drawn.len() != SIDE * SIDE || far < 90 {
                return Err(format!("after the demo has run there are {} objects, {} circles, and {far} have walked", seen.states[0].len(), drawn.len()));
            }
            Ok(())
        });
        // the walk goes nowhere in particular
        if w.n >= 50_000 {
            let n = w.n as f64;
            let var = [w.sq[0] / n, w.sq[1] / n];
            for c in 0..2 {
                let mean = w.sum[c] / n;
                if mean.abs() > 0.02 {
                    rep.violation("drift", format!("coordinate {c} drifts by {mean:.4} in each step, over {n} steps"), vec![]);
                }
            }
            if w.low > -0.9 || w.high < 0.9 || w.low < -1.01 || w.high > 1.01 {
                rep.violation("reach", format!("the steps lie between {} and {}", w.low, w.high), vec![]);
            }
            let r = w.xy / n / (var[0] * var[1]).sqrt();
            if !(r.abs() < 0.05) {
                rep.violation("x and y", format!("x and y do not move independently: correlation {r:.3}"), vec![]);
            }
            let r = w.next / n / (var[0] + var[1]);
            if !(r.abs() < 0.05) {
                rep.violation("neighbours", format!("neighbours do not move independently: correlation {r:.3}"), vec![]);
            }
            if w.still as f64 > n * 0.02 {
                rep.violation("still", format!("{} of {} coordinates stayed", w.still, 2 * w.n), vec![]);
            }
        }
        rep.count("steps_of_circles", w.n);
    }
    rep.finish()
}
