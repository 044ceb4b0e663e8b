exec(open('/verif/tools/seeds/pre.py').read())
ID='c08-prefix-equal'
PROPERTY='C08'
NEEDS='a dynamic list compared with a slice that is a proper prefix or extension of it'
BREAKS='a list and a slice of different lengths compare equal'
EDITS=[('client/rust/src/contract/properties/dynamic/vec.rs', '                fn eq(&self, other: &&[$t]) -> bool {\n                    if let Self::[<$t:camel>](inner) = self {\n                        inner == other', '                fn eq(&self, other: &&[$t]) -> bool {\n                    if let Self::[<$t:camel>](inner) = self {\n                        inner.iter().zip(other.iter()).all(|(a, b)| a == b)')]
MAIN=HEAD+'\nfn main() {\n    let d = DynTpProperty::from(vec![1u8, 2, 3]);\n    assert!(d == &[1u8, 2, 3][..]);\n    assert!(d != &[1u8, 2, 4][..]);\n    assert!(d != &[1u8, 2][..]);\n    assert!(d != &[1u8, 2, 3, 4][..]);\n}'
