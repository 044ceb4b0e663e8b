//! The driver shared by the monitors of baseline histories (C02 to C06).
use crate::report::{guarded, Report};
use crate::rng::Rng;
use crate::world::*;

/// Runs `cases` random histories; what breaks `prop` is reported, what breaks
/// only other properties ends the history and is counted.
pub fn run(rep: &mut Report, prop: &'static str, wt: Weights, cases: u64, steps: usize) {
    for case in 0..cases {
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        if rep.stop() {
            break;
        }
        let mut r = Rng::new(rep.seed, 1000 + case);
        let mut w = World::new();
        w.move_clock = true;
        // some histories stay small and dense, some use few contracts
        match case % 4 {
            1 => w.max_live = 3,
            2 => w.use_kinds = vec![r.below(w.kinds.len()), r.below(w.kinds.len())],
            _ => {}
        }
        let mut wt = wt.clone();
        if case % 5 != 0 {
            wt.bulk = 0;
        }
        let mut res = Ok(());
        let outcome = guarded(|| {
            for _ in 0..steps {
                res = w.step(&mut r, &wt, true);
                if res.is_err() {
                    break;
                }
            }
        });
        if outcome.is_ok() && res.is_ok() {
            for side in 0..2 {
                res = res.and_then(|_| w.orphans(side, &["C02", "C04"], "at the end"));
            }
        }
        if let Err(p) = outcome {
            // not in an operation (those are guarded) but in an observation after one
            let mut props = w.cur.props().to_vec();
            props.push("C05");
            res = Err(Fail {
                props,
                msg: format!("observing a baseline panicked: {p}"),
            });
        }
        let n = w.states_seen.len() as u64;
        for s in &w.states_seen {
            rep.eval(*s, true);
        }
        rep.count("histories", 1);
        rep.count("distinct states within histories", n);
        rep.count("field reads compared", w.reads);
        rep.count("binds compared", w.binds);
        rep.count("probes for fields without an owner", w.probes);
        for (k, v) in &w.ops {
            rep.count(&format!("op {k:?}"), *v);
        }
        rep.sample(|| w.log.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("; "));
        if let Err(f) = res {
            if f.props.contains(&prop) {
                let key: String = f.msg.chars().filter(|c| !c.is_ascii_digit()).take(120).collect();
                let mut detail = vec![format!("case {case}")];
                detail.extend(w.log.iter().cloned());
                rep.violation(key, f.msg, detail);
            } else {
                rep.count("histories ended by another property", 1);
                if rep.notes.len() < 5 {
                    rep.notes.push(format!("case {case}: breaks {:?}: {}", f.props, f.msg));
                }
            }
        }
    }
}
