exec(open('/verif/tools/seeds/pre.py').read())
ID='c06-newer-registration'
PROPERTY='C06'
NEEDS='a state id of an earlier registration, and an object of a later one'
BREAKS='ids of older contract registrations bind to objects of newer ones'
EDITS=[('client/rust/src/object.rs', '        if id.contract() != self.contract() {\n            return Err(eyre!("Supplied id did not match this object\'s contract"));\n        }\n        let idx = *self.states', '        // An id must not be newer than the object\n        if id.contract() > self.contract() {\n            return Err(eyre!("Supplied id did not match this object\'s contract"));\n        }\n        let idx = *self.states')]
MAIN=HEAD+'contract!(A, SA { a: u64 }, ChA {}, "x", (1, 2, 3));\ncontract!(Z, SZ { z: u64 }, ChZ {}, "z", (1, 2, 3));\nfn main() {\n    let mut b = Baseline::new(BaselineKind::Main);\n    let c = b.register_contract::<A>().unwrap();\n    let d = b.register_contract::<Z>().unwrap();\n    let v = || vec![DynTpProperty::from(7u64)].into_iter();\n    let o = b.object_create(&c, v(), [].into_iter()).unwrap();\n    let p = b.object_create(&d, v(), [].into_iter()).unwrap();\n    assert!(b.bind_state(c.states().a(), o).is_ok() && b.bind_state(d.states().z(), p).is_ok());\n    assert!(b.bind_state(d.states().z(), o).is_err());\n    assert!(b.bind_state(c.states().a(), p).is_err());\n}'
