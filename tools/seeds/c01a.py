ID="c01-stale-get-mut"; PROPERTY="C01"
NEEDS="mutable access through a handle whose slot has been reused by a later insertion"
BREAKS="Arena::get_mut ignores the generation, so a stale handle reaches the value that now lives in its slot"
EDITS=[("crates/datastructures/arena/src/lib.rs","        self.0.get_mut(idx.into())\n","        let (slot, _) = ga::Index::from(idx).into_raw_parts();\n        self.0.get_unknown_gen_mut(slot).map(|(value, _)| value)\n")]
MAIN='''fn main() {
    let mut a = arena::Arena::new();
    let x = a.insert(1);
    a.remove(x);
    assert!(a.get_mut(x).is_none());
    let y = a.insert(2);
    if let Some(v) = a.get_mut(x) { *v = 99; }
    assert_eq!(a[y], 2);
}'''
