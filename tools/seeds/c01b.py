exec(open('/verif/tools/seeds/pre.py').read())
ID='c01-short-generations'
PROPERTY='C01'
NEEDS='two handles of one slot that are exactly 65536 generations apart'
BREAKS='handles of different lives of a slot compare equal'
EDITS=[('crates/datastructures/arena/src/lib.rs', '        self.inner == other.inner\n', '        // The low bits of the generation tell the lives of a slot apart\n        let (slot, generation) = self.inner.into_raw_parts();\n        let (other_slot, other_generation) = other.inner.into_raw_parts();\n        slot == other_slot && generation as u16 == other_generation as u16\n')]
MAIN=HEAD+'fn main() {\n    let mut a = arena::Arena::new();\n    let first = a.insert(0u64);\n    a.remove(first).unwrap();\n    for i in 0..70_000u64 {\n        let h = a.insert(i);\n        assert!(h != first, "life {i} of the slot has the handle of the first");\n        a.remove(h).unwrap();\n    }\n}'
