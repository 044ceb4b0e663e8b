exec(open('/verif/tools/seeds/pre.py').read())
ID='c02-marker-object'
PROPERTY='C02'
NEEDS='removing an object whose contract declares channels but no states'
BREAKS='object_remove leaves the channels of the removed object behind, readable through their old handles'
EDITS=[('client/rust/src/baseline.rs', '        let states = StatesIter::<C::States>::new(contract);\n        let channels = ChannelsIter::<C::Channels>::new(contract);\n\n        for s in states {', '        let states = StatesIter::<C::States>::new(contract);\n        let mut channels = ChannelsIter::<C::Channels>::new(contract);\n        if states.size_hint().0 == 0 {\n            // A marker object has no fields to take down\n            channels.nth(usize::MAX);\n        }\n\n        for s in states {')]
MAIN=HEAD+'\ncontract!(A, SA {}, ChA { a: u8, b: String }, "x", (1, 2, 3));\nfn main() {\n    let mut b = Baseline::new(BaselineKind::Main);\n    let c = b.register_contract::<A>().unwrap();\n    let ch = || vec![DynChannel::Primitive(Channel::<u8>::new(vec![Keyframe::new(1u8, 0.0)].into_iter()).into()),\n                     DynChannel::Primitive(Channel::<String>::new(vec![].into_iter()).into())].into_iter();\n    let o = b.object_create(&c, [].into_iter(), ch()).unwrap();\n    let keep = b.object_create(&c, [].into_iter(), ch()).unwrap();\n    let h = b.bind_channel(c.channels().a(), o).unwrap();\n    let k = b.bind_channel(c.channels().a(), keep).unwrap();\n    assert!(b.channel(h).is_ok());\n    b.object_remove::<A>(o).unwrap();\n    assert!(b.channel(h).is_err());\n    assert!(b.channel(k).is_ok());\n}'
