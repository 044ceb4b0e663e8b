exec(open('/verif/tools/seeds/pre.py').read())
ID='c02-empty-channels-stay'
PROPERTY='C02'
NEEDS='an object one of whose channels has no keyframes when it is removed'
BREAKS='channels without keyframes survive the removal of their object'
EDITS=[('client/rust/src/baseline.rs', '                if let Err(e) = self.channel_remove(handle) {', '                if self.channel(handle)?.keyframes().is_empty() {\n                    // There is nothing in it to release\n                    return Ok::<(), eyre::Report>(());\n                }\n                if let Err(e) = self.channel_remove(handle) {')]
MAIN=HEAD+'contract!(A, SA {}, ChA { c: u8, d: u8 }, "x", (1, 2, 3));\nfn main() {\n    for n in [2usize, 0] {\n        let mut b = Baseline::new(BaselineKind::Main);\n        let c = b.register_contract::<A>().unwrap();\n        let chan = |n: usize| DynChannel::Primitive(Channel::<u8>::new((0..n).map(|i| Keyframe::new(i as u8, i as f64))).into());\n        let o = b.object_create(&c, [].into_iter(), vec![chan(n), chan(1)].into_iter()).unwrap();\n        let (h, k) = (b.bind_channel(c.channels().c(), o).unwrap(), b.bind_channel(c.channels().d(), o).unwrap());\n        b.object_remove::<A>(o).unwrap();\n        assert!(b.channel(h).is_err() && b.channel(k).is_err());\n    }\n}'
