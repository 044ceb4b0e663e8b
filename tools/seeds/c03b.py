exec(open('/verif/tools/seeds/pre.py').read())
ID='c03-packed-version'
PROPERTY='C03'
NEEDS='two contracts of one name whose versions agree when packed into bytes'
BREAKS='registering another version is refused'
EDITS=[('client/rust/src/baseline.rs', '            if c_id == C::ID {', '            // Versions are compared as one number\n            let number = |(major, minor, patch): (u16, u16, u16)| {\n                (u32::from(major) << 16) + (u32::from(minor) << 8) + u32::from(patch)\n            };\n            if c_id.name == C::ID.name && number(c_id.version) == number(C::ID.version) {')]
MAIN=HEAD+'contract!(A, SA { a: u64 }, ChA {}, "x", (1, 0, 256));\ncontract!(Z, SZ { z: u64 }, ChZ {}, "x", (1, 1, 0));\ncontract!(Y, SY { z: u64 }, ChY {}, "x", (1, 1, 1));\nfn main() {\n    let mut b = Baseline::new(BaselineKind::Main);\n    b.register_contract::<A>().unwrap();\n    assert!(b.register_contract::<A>().is_err());\n    b.register_contract::<Y>().unwrap();\n    b.register_contract::<Z>().unwrap();\n}'
