//! Every equality of dynamic values against the model's own.
use better_borrow::{BBorrow, BBorrowMut};
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::dyn_state::*;
use tp_client::contract::properties::states::State;
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;
use vcore::types::*;
use vcore::*;

type Res = Result<(), String>;

fn cast_bits(c: &Cell, to: usize) -> Option<Cell> {
    let w = [8, 16, 32, 64, 8, 16, 32, 64, 1, 32, 64];
    match (c, to) {
        (Cell::Bits(b), t) if t < 11 => Some(Cell::Bits(if w[t] == 64 { *b } else { *b & ((1u64 << w[t]) - 1) })),
        (Cell::Handle(..), 12) | (Cell::Handle(..), 13) => Some(c.clone()),
        (Cell::Bits(b), 11) => Some(Cell::Str(b.to_string())),
        (Cell::Str(s), t) if t < 11 => s.parse().ok().map(|b: u64| Cell::Bits(b & 1)),
        _ => None,
    }
}

/// Something to compare `a` with: equal, nearly equal, or equal but for the type.
fn related(a: &Val, r: &mut Rng) -> (Val, &'static str) {
    let mut b = a.clone();
    match r.below(10) {
        0 | 1 => (b, "same"),
        2 => {
            b = gen_val(a.ty, a.list, r);
            (b, "other payload")
        }
        3 | 4 => {
            let t = r.below(14);
            let cells: Option<Vec<Cell>> = a.cells.iter().map(|c| cast_bits(c, t)).collect();
            match cells {
                Some(cells) if !(t == 8 && false) => (Val { ty: t, list: a.list, cells }, "same bits, another type"),
                _ => (gen_val(t, a.list, r), "another type"),
            }
        }
        5 => {
            // x against [x]
            if a.list {
                if a.cells.is_empty() {
                    (gen_val(a.ty, false, r), "scalar against empty list")
                } else {
                    (Val { ty: a.ty, list: false, cells: vec![r.pick(&a.cells).clone()] }, "scalar against list")
                }
            } else {
                (Val { ty: a.ty, list: true, cells: a.cells.clone() }, "list against scalar")
            }
        }
        6 if a.list => {
            match r.below(4) {
                0 => {
                    b.cells.pop();
                }
                1 => b.cells.push(gen_cell(a.ty, r)),
                2 => b.cells.reverse(),
                _ => b.cells.rotate_left(if a.cells.is_empty() { 0 } else { 1 }),
            }
            (b, "list changed in shape")
        }
        7 if a.list && !a.cells.is_empty() => {
            let i = r.below(b.cells.len());
            b.cells[i] = gen_cell(a.ty, r);
            (b, "one element changed")
        }
        8 if a.ty == 9 || a.ty == 10 => {
            // flip signs: -0.0 equals 0.0, other values do not
            let bit = if a.ty == 9 { 1u64 << 31 } else { 1u64 << 63 };
            for c in b.cells.iter_mut() {
                if let Cell::Bits(x) = c {
                    *x ^= bit;
                }
            }
            (b, "signs flipped")
        }
        8 | 9 => {
            // one bit, one character or one handle part differs
            if let Some(c) = b.cells.last_mut() {
                match c {
                    Cell::Bits(x) => *x ^= if a.ty == 8 { 1 } else { 1 << r.below([8, 16, 32, 64, 8, 16, 32, 64, 1, 32, 64][a.ty]) },
                    Cell::Str(s) => {
                        if r.chance(1, 2) {
                            s.push('\0')
                        } else {
                            s.pop();
                        }
                    }
                    Cell::Handle(i, g) => {
                        if r.chance(1, 2) {
                            *i ^= 1 << r.below(20)
                        } else {
                            *g ^= 1 << r.below(20)
                        }
                    }
                }
            }
            (b, "least difference")
        }
        _ => {
            let (t, l) = (r.below(14), r.chance(1, 2));
            (gen_val(t, l, r), "unrelated")
        }
    }
}

fn ck(what: &str, eq: bool, ne: bool, want: bool, n: &mut u64) -> Res {
    *n += 1;
    if eq != want {
        return Err(format!("{what}: == is {eq}, expected {want}"));
    }
    if ne == want {
        return Err(format!("{what}: != is {ne}, expected {}", !want));
    }
    Ok(())
}
macro_rules! both {
    ($what:expr, $a:expr, $b:expr, $want:expr, $n:expr) => {
        ck($what, $a == $b, $a != $b, $want, $n)?
    };
}

/// All comparisons of `a` and `b`, in both orders.
fn compare(a: &Val, b: &Val, want: bool, n: &mut u64) -> Res {
    let (mut da, mut db) = (to_dyn(a), to_dyn(b));
    both!("DynTpProperty, DynTpProperty", da, db, want, n);
    both!("DynTpProperty, DynTpProperty", db, da, want, n);
    both!("clone", da.clone(), db.clone(), want, n);
    both!("references", &da, &db, want, n);
    // views, by each route
    both!("DynTpPropertyRef", ref_of(&da), ref_of(&db), want, n);
    both!("DynTpPropertyRef by From", DynTpPropertyRef::from(&da), ref_of(&db), want, n);
    both!("DynStateRef", DynStateRef(ref_of(&da)), DynStateRef(ref_of(&db)), want, n);
    match (ref_of(&da), ref_of(&db)) {
        (DynTpPropertyRef::Primitive(x), DynTpPropertyRef::Primitive(y)) => both!("DynTpPrimitiveRef", x, y, want, n),
        (DynTpPropertyRef::Vec(x), DynTpPropertyRef::Vec(y)) => both!("DynTpVecRef", x, y, want, n),
        _ => {}
    }
    {
        let (x, y): (DynTpPropertyMut, DynTpPropertyMut) = (BBorrowMut::borrow_mut(&mut da), BBorrowMut::borrow_mut(&mut db));
        both!("DynTpPropertyMut", x, y, want, n);
        both!("DynTpPropertyMut", y, x, want, n);
        let (x, y) = (DynStateMut(x), DynStateMut(y));
        both!("DynStateMut", x, y, want, n);
        match (x.0, y.0) {
            (DynTpPropertyMut::Primitive(x), DynTpPropertyMut::Primitive(y)) => both!("DynTpPrimitiveMut", x, y, want, n),
            (DynTpPropertyMut::Vec(x), DynTpPropertyMut::Vec(y)) => both!("DynTpVecMut", x, y, want, n),
            _ => {}
        }
    }
    both!("DynState", DynState(to_dyn(a)), DynState(to_dyn(b)), want, n);
    match (&da, &db) {
        (DynTpProperty::Primitive(x), DynTpProperty::Primitive(y)) => {
            both!("DynTpPrimitive, DynTpPrimitive", x, y, want, n);
            both!("DynTpProperty, DynTpPrimitive", da, *y, want, n);
            both!("DynTpProperty, DynTpPrimitive", db, *x, want, n);
        }
        (DynTpProperty::Vec(x), DynTpProperty::Vec(y)) => both!("DynTpVec, DynTpVec", x, y, want, n),
        (DynTpProperty::Vec(_), DynTpProperty::Primitive(y)) => both!("DynTpProperty of a list, DynTpPrimitive", da, *y, false, n),
        (DynTpProperty::Primitive(x), DynTpProperty::Vec(_)) => both!("DynTpProperty of a list, DynTpPrimitive", db, *x, false, n),
    }
    // against plain values
    for (d, p) in [(&da, b), (&db, a)] {
        let d: &DynTpProperty = d;
        dispatch_prim!(p.ty, T => {
            if p.list {
                let v: Vec<T> = <Vec<T> as Prop>::from_val(p);
                let s: &[T] = &v;
                both!("DynTpProperty, Vec", *d, v, want, n);
                both!("Vec, DynTpProperty", v, *d, want, n);
                both!("DynTpProperty, slice", *d, s, want, n);
                both!("slice, DynTpProperty", s, *d, want, n);
                if let DynTpProperty::Vec(dv) = d {
                    both!("DynTpVec, Vec", *dv, v, want, n);
                    both!("Vec, DynTpVec", v, *dv, want, n);
                    both!("DynTpVec, slice", *dv, s, want, n);
                    both!("slice, DynTpVec", s, *dv, want, n);
                }
                // views of plain lists
                both!("view of Vec, view of dyn", DynTpPropertyRef::from(&v), ref_of(d), want, n);
                both!("view of slice, view of dyn", DynTpPropertyRef::from(s), ref_of(d), want, n);
                both!("view of dyn, view of slice", ref_of(d), DynTpPropertyRef::from(s), want, n);
                let st = State::new(v.clone());
                both!("view of State, view of dyn", DynStateRef::from(&st), DynStateRef(ref_of(d)), want, n);
                both!("State of dyn", DynState::from(State::new(v.clone())), DynState(d.clone()), want, n);
            } else {
                let v: T = <T as Prop>::from_val(p);
                both!("DynTpProperty, plain", *d, v, want, n);
                both!("plain, DynTpProperty", v, *d, want, n);
                if let DynTpProperty::Primitive(dp) = d {
                    both!("DynTpPrimitive, plain", *dp, v, want, n);
                    both!("plain, DynTpPrimitive", v, *dp, want, n);
                }
                both!("view of plain, view of dyn", DynTpPropertyRef::from(&v), ref_of(d), want, n);
                both!("view of dyn, view of plain", ref_of(d), DynTpPropertyRef::from(&v), want, n);
                let st = State::new(v.clone());
                both!("view of State, view of dyn", DynStateRef::from(&st), DynStateRef(ref_of(d)), want, n);
                both!("State of dyn", DynState::from(State::new(v.clone())), DynState(d.clone()), want, n);
            }
        });
    }
    let _: DynTpPropertyRef = BBorrow::borrow(&da);
    // comparing changes nothing
    if dyn_val(&da) != *a || dyn_val(&db) != *b {
        return Err("a comparison changed a value".into());
    }
    Ok(())
}

/// A value against itself, the very same memory: NaN is still not equal.
fn aliased(a: &Val, n: &mut u64) -> Res {
    let want = val_eq(a, a);
    let mut d = to_dyn(a);
    both!("a DynTpProperty and itself", d, d, want, n);
    both!("a DynTpProperty and itself, by reference", &d, &d, want, n);
    both!("two views of a DynTpProperty", ref_of(&d), ref_of(&d), want, n);
    both!("two state views of a DynTpProperty", DynStateRef(ref_of(&d)), DynStateRef(ref_of(&d)), want, n);
    let v = ref_of(&d);
    both!("a view and itself", v, v, want, n);
    {
        let m: DynTpPropertyMut = BBorrowMut::borrow_mut(&mut d);
        both!("a mutable view and itself", m, m, want, n);
    }
    macro_rules! own {
        ($($N:ident $t:ty),*) => {
            match (&d, ref_of(&d)) {
                (DynTpProperty::Vec(dv), DynTpPropertyRef::Vec(v)) => {
                    both!("a DynTpVec and itself", dv, dv, want, n);
                    match (dv, v) {
                        $((DynTpVec::$N(v), DynTpVecRef::$N(s)) => {
                            both!("a DynTpProperty and its own slice", d, s, want, n);
                            both!("the slice of a DynTpProperty and it", s, d, want, n);
                            both!("a DynTpProperty and its own Vec", d, *v, want, n);
                            both!("the Vec of a DynTpProperty and it", *v, d, want, n);
                            both!("a DynTpVec and its own slice", *dv, s, want, n);
                            both!("the slice of a DynTpVec and it", s, *dv, want, n);
                            both!("a DynTpVec and its own Vec", *dv, *v, want, n);
                            both!("the Vec of a DynTpVec and it", *v, *dv, want, n);
                        })*
                        _ => return Err("a view has another type than its owner".into()),
                    }
                }
                (DynTpProperty::Primitive(dp), DynTpPropertyRef::Primitive(_)) => {
                    both!("a DynTpPrimitive and itself", dp, dp, want, n);
                    both!("a DynTpProperty and its own DynTpPrimitive", d, *dp, want, n);
                    match dp {
                        $(DynTpPrimitive::$N(x) => {
                            both!("a DynTpProperty and its own value", d, *x, want, n);
                            both!("the value of a DynTpProperty and it", *x, d, want, n);
                            both!("a DynTpPrimitive and its own value", *dp, *x, want, n);
                            both!("the value of a DynTpPrimitive and it", *x, *dp, want, n);
                        })*
                    }
                }
                _ => return Err("a view has another type than its owner".into()),
            }
        };
    }
    own!(U8 u8, U16 u16, U32 u32, U64 u64, I8 i8, I16 i16, I32 i32, I64 i64, Bool bool, F32 f32, F64 f64, String String, ObjectHandle ObjectHandle, ContractDataHandle ContractDataHandle);
    Ok(())
}

/// Long values that differ, if they do, late.
fn long_pair(ty: usize, list: bool, r: &mut Rng) -> (Val, Val) {
    let n = [600, 5000, 5000, 70_000][r.below(if ty < 2 || ty == 8 { 4 } else { 3 })];
    let mut a = Val { ty, list, cells: vec![] };
    if list {
        a.cells = (0..n).map(|_| gen_cell(ty, r)).filter(|c| !matches!((ty, c), (9 | 10, Cell::Bits(b)) if cell_eq(ty, &Cell::Bits(*b), &Cell::Bits(*b)) == false)).collect();
    } else {
        a.cells.push(Cell::Str((0..n).map(|_| char::from_u32(32 + r.below(300) as u32).unwrap()).collect()));
    }
    let mut b = a.clone();
    match (r.below(4), list) {
        (0, _) => {}
        (1, true) => {
            let i = b.cells.len() - 1 - r.below(3);
            b.cells[i] = gen_cell(ty, r);
        }
        (2, true) => {
            b.cells.pop();
        }
        (_, true) => b.cells.push(gen_cell(ty, r)),
        (k, false) => {
            if let Cell::Str(s) = &mut b.cells[0] {
                if k < 3 {
                    s.pop();
                }
                if k > 1 {
                    s.push('~');
                }
            }
        }
    }
    (a, b)
}

fn main() {
    let mut rep = Report::new("C08", "Pairs of property values: equal, equal but for one bit, element or character, equal bits or numbers under another type, scalar against one-element list, signed zeros, NaNs, unrelated, lists and texts of up to 70000 elements that differ at the end; values against themselves in place; each pair under every comparison the library offers (dynamic with dynamic, with plain value, Vec and slice in either order, halves, shared and mutable views, states), both == and !=. A case is one pair; non-trivial when the two are not simply unrelated");
    let n = rep.scale(30_000, 1_000_000);
    let mut comparisons = 0u64;
    for case in 0..n {
        if rep.stop() {
            break;
        }
        if rep.only_case.map_or(false, |c| c != case) {
            continue;
        }
        let mut r = Rng::new(rep.seed, case);
        for k in 0..28usize {
            let long = case % 800 == 401 && (k >= 14 || k == 11);
            let (a, b, how) = if long {
                let (a, b) = long_pair(k % 14, k >= 14, &mut r);
                (a, b, "long")
            } else {
                let a = gen_val(k % 14, k >= 14, &mut r);
                let (b, how) = related(&a, &mut r);
                (a, b, how)
            };
            let want = val_eq(&a, &b);
            let n = &mut comparisons;
            let res = guarded(|| {
                compare(&a, &b, want, n)?;
                aliased(&a, n)
            })
            .and_then(|x| x);
            if let Err(e) = res {
                let short = |v: &Val| format!("{v:?}").chars().take(600).collect::<String>();
                rep.violation(e.clone(), format!("case {case}: {} and {} ({how}): {e}", short(&a), short(&b)), vec![]);
            }
            rep.eval((&a, &b), how != "unrelated");
            rep.count(&format!("pairs: {how}"), 1);
            rep.count(if want { "equal pairs" } else { "unequal pairs" }, 1);
            if !long {
                rep.sample(|| format!("{how}: {a:?} vs {b:?}: {want}"));
            }
        }
    }
    rep.count("comparisons", comparisons);
    rep.finish()
}
