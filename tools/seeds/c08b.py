exec(open('/verif/tools/seeds/pre.py').read())
ID='c08-long-lists'
PROPERTY='C08'
NEEDS='lists of more than 4096 elements that differ only after those'
BREAKS='an owned list equals a dynamic one that differs late'
EDITS=[('client/rust/src/contract/properties/dynamic/vec.rs', '                    if let DynTpVec::[<$t:camel>](other) = other {\n                        self == other\n                    } else {\n                        false\n                    }\n                }\n            }\n\n            impl PartialEq<&[$t]> for DynTpVec {', '                    if let DynTpVec::[<$t:camel>](other) = other {\n                        // Compare the lengths first, that is faster\n                        self.len() == other.len()\n                            && self.chunks(64).zip(other.chunks(64)).take(64).all(|(a, b)| a == b)\n                    } else {\n                        false\n                    }\n                }\n            }\n\n            impl PartialEq<&[$t]> for DynTpVec {')]
MAIN=HEAD+'fn main() {\n    let mut v: Vec<u8> = (0..5000).map(|i| i as u8).collect();\n    let d = DynTpVec::U8(v.clone());\n    assert!(v == d && d == v);\n    v[4999] ^= 1;\n    assert!(v != d && d != v);\n}'
