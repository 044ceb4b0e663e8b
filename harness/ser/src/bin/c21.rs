use tp_client::baseline::BaselineKind;
use vcore::report::h64;
use vcore::*;
use vser::*;

fn shuffled(n: usize, r: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    v
}

fn round_trip(r: &mut Rng, ks: &[SerKind], size: usize, rep: &mut Vec<(&'static str, u64)>) -> Result<(u64, bool, String), String> {
    let mut within: Vec<usize> = shuffled(MAIN, r);
    within.truncate(1 + r.below(MAIN));
    let src = source(r, ks, &within, size);
    let before = picture(&src.b, ks, &src.cs)?;
    let mut sel: Vec<_> = src.cs.iter().copied().filter(|c| within.contains(&c.0)).collect();
    r.shuffle(&mut sel);
    let chosen = picture(&src.b, ks, &sel)?;
    let used = r.chance(1, 3);
    let bytes = guarded(|| serialise(&src.b, ks, &sel, used)).map_err(|p| format!("serialising panicked: {p}"))?.map_err(|e| format!("serialising was refused: {e}"))?;
    if picture(&src.b, ks, &src.cs)? != before {
        return Err("serialising changed the source".into());
    }
    let want = chosen.shape(ks);
    let mut bytes = bytes;
    for again in 0..2 {
        let kind = kind_of(r);
        let mut regs: Vec<usize> = sel.iter().map(|c| c.0).collect();
        r.shuffle(&mut regs);
        let des = shuffled(regs.len(), r);
        let (b, cs) = guarded(|| deserialise(&bytes, ks, kind, &regs, &des))
            .map_err(|p| format!("reading panicked: {p}"))?
            .map_err(|e| format!("reading was refused: {e}"))?;
        if b.kind() != kind {
            return Err("the baseline read is of another kind than asked for".into());
        }
        let got = picture(&b, ks, &cs)?;
        if let Some(d) = got.dangling(ks) {
            return Err(format!("after reading, {d}"));
        }
        if b.iter_objects().count() != got.objects.len() {
            return Err(format!("{} objects were read, the contracts have {}", b.iter_objects().count(), got.objects.len()));
        }
        let shape = got.shape(ks);
        if shape != want {
            let (mut n, mut m): (Vec<_>, Vec<_>) = (shape.iter().map(|x| (x.0, x.1.len())).collect(), want.iter().map(|x| (x.0, x.1.len())).collect());
            n.sort();
            m.sort();
            return Err(if n != m {
                format!("other objects arrived: per contract {n:?} instead of {m:?}")
            } else {
                let k = shape.iter().zip(&want).find(|(a, b)| a != b).map(|(a, _)| ks[a.0].k.name).unwrap_or("?");
                format!("the values or references of the objects of {k} arrived changed")
            });
        }
        if again == 0 {
            // a second generation
            let mut cs = cs;
            r.shuffle(&mut cs);
            bytes = guarded(|| serialise(&b, ks, &cs, false))
                .map_err(|p| format!("serialising what was read panicked: {p}"))?
                .map_err(|e| format!("serialising what was read was refused: {e}"))?;
        }
    }
    let refs = chosen.objects.iter().flat_map(|o| o.2.iter().enumerate().filter(|(f, _)| ks[o.0].k.states[*f].0 >= 12)).count();
    rep.push(("contracts", sel.len() as u64));
    rep.push(("objects", chosen.objects.len() as u64));
    rep.push(("values", chosen.objects.iter().map(|o| o.2.len() as u64).sum()));
    rep.push(("references", refs as u64));
    rep.push(("bytes", bytes.len() as u64));
    Ok((h64(&want), !chosen.objects.is_empty(), format!("{} contracts, {} objects, {refs} references, {} bytes", sel.len(), chosen.objects.len(), bytes.len())))
}

/// Selections that the format cannot hold must not be read back as if they
/// were whole.
fn unclosed(r: &mut Rng, ks: &[SerKind]) -> Result<&'static str, String> {
    let all: Vec<usize> = (0..MAIN).collect();
    let mut src = source(r, ks, &all, 12);
    if src.objs.is_empty() {
        return Ok("nothing to leave out");
    }
    let mut sel = src.cs.clone();
    let how = r.below(4);
    match how {
        0 => {
            // something referred to is left out
            let i = r.below(sel.len());
            sel.remove(i);
        }
        1 => {
            // something referred to is gone
            let (k, _, o) = src.objs.swap_remove(r.below(src.objs.len()));
            (ks[k].k.remove)(&mut src.b, o)?;
        }
        2 => {
            // a contract is asked for twice
            let i = r.below(sel.len());
            let at = r.below(sel.len() + 1);
            sel.insert(at, sel[i]);
        }
        _ => {
            // objects whose lists or channels the format has no place for
            let k = *r.pick(&[VEC, CHAN]);
            let c = (ks[k].k.register)(&mut src.b)?;
            sel.push((k, c.handle()));
            if r.chance(2, 3) {
                let s: Vec<_> = ks[k].k.states.iter().map(|(t, l)| vcore::types::to_dyn(&vcore::types::gen_val(*t, *l, r))).collect();
                let ch: Vec<_> = ks[k].k.chans.iter().map(|(t, l)| vcore::types::to_dyn_chan(*t, *l, &vcore::types::gen_frames(*t, *l, r))).collect();
                c.create(&mut src.b, Box::new(s.into_iter()), Box::new(ch.into_iter()))?;
            } else if k == CHAN {
                return Ok("a contract with channels and no objects");
            }
        }
    }
    let whole = picture(&src.b, ks, &sel.iter().copied().collect::<std::collections::HashSet<_>>().into_iter().collect::<Vec<_>>())?;
    let closed = whole.dangling(ks).is_none();
    let out = guarded(|| serialise(&src.b, ks, &sel, false));
    let bytes = match out {
        Ok(Ok(b)) => b,
        Ok(Err(_)) if how == 2 || how == 3 => return Ok("refused"),
        Ok(Err(e)) if closed => return Err(format!("a closed selection was refused: {e}")),
        Ok(Err(_)) => return Ok("refused"),
        Err(p) if closed => return Err(format!("serialising panicked: {p}")),
        Err(_) => return Ok("unclosed, loudly"),
    };
    let mut regs: Vec<usize> = vec![];
    for (k, _) in &sel {
        if !regs.contains(k) {
            regs.push(*k);
        }
    }
    let des = shuffled(regs.len(), r);
    match guarded(|| deserialise(&bytes, ks, BaselineKind::Main, &regs, &des)) {
        Err(p) => Err(format!("reading what was just written panicked: {p}")),
        Ok(Err(e)) if closed && how < 2 => Err(format!("reading was refused: {e}")),
        Ok(Err(e)) if how == 2 => Err(format!("a contract was written twice, and then cannot be read: {e}")),
        Ok(Err(_)) => Ok("refused on reading"),
        Ok(Ok((b, cs))) => {
            let got = picture(&b, ks, &cs)?;
            if how == 3 {
                return Err("objects with lists or channels were read back without them".into());
            }
            if !closed {
                return Err("a selection that is not closed under references was read back".into());
            }
            if got.shape(ks) != whole.shape(ks) {
                return Err(format!("read back changed ({})", ["one contract less", "one object less", "one contract twice"][how]));
            }
            Ok("closed, and read")
        }
    }
}

fn main() {
    let mut rep = Report::new("C21", "Random baselines of nine contracts over all 14 scalar types, with removed objects, reused slots, chains, rings and self-references; a random selection closed under references is serialised in random order and read back in random order, and what was read is serialised and read again. Compared by the multiset of objects per contract, refined by what they refer to. Distinct by that shape; cases with no objects are trivial");
    let ks = kinds();
    let n = rep.scale(20_000, 400_000);
    if rep.only_case.is_none() {
        for (contracts, per) in [(264, 30), (257, 40), (9, 16_500)] {
            let mut r = Rng::new(rep.seed, 2_000 + contracts as u64);
            match guarded(|| vmany::run(&mut r, contracts, per)) {
                Ok(Ok(n)) => {
                    rep.eval(h64((contracts, per)), true);
                    rep.count("objects of round trips at scale", n as u64);
                    rep.count("contracts of round trips at scale", contracts as u64);
                }
                Ok(Err(e)) => {
                    let key: String = e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                    rep.violation(key, e, vec![format!("{contracts} contracts, {per} objects for each of four")])
                }
                Err(p) => rep.violation("observing a baseline panicked", p, vec![format!("{contracts} contracts")]),
            }
        }
    }
    for case in 0..n {
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        if rep.stop() {
            break;
        }
        let mut r = Rng::new(rep.seed, 2100 + case);
        // a few are large enough for indices of more than one byte, and one of two
        let size = match case {
            7 => 20_000,
            c if c % 200 == 3 => 600,
            c => [3, 10, 30][c as usize % 3],
        };
        let mut seen = vec![];
        match guarded(|| round_trip(&mut r, &ks, size, &mut seen)) {
            Ok(Ok((sig, nontrivial, text))) => {
                rep.eval(sig, nontrivial);
                rep.sample(|| text);
            }
            Ok(Err(e)) => {
                let key: String = e.chars().filter(|c| !c.is_ascii_digit()).take(120).collect();
                rep.violation(key, e, vec![format!("case {case}")])
            }
            Err(p) => rep.violation("observing a baseline panicked", p, vec![format!("case {case}")]),
        }
        for (k, v) in seen {
            rep.count(k, v);
        }
        let mut r = Rng::new(rep.seed, 2_100_000 + case);
        match guarded(|| unclosed(&mut r, &ks)) {
            Ok(Ok(k)) => rep.count(&format!("selection the format may not hold: {k}"), 1),
            Ok(Err(e)) => {
                let key: String = e.chars().filter(|c| !c.is_ascii_digit()).take(120).collect();
                rep.violation(key, e, vec![format!("case {case}, of the selections the format may not hold")])
            }
            Err(p) => rep.violation("observing a baseline panicked", p, vec![format!("case {case}")]),
        }
    }
    rep.finish()
}
