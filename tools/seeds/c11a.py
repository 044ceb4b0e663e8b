exec(open('/verif/tools/seeds/pre.py').read())
ID='c11-pairwise-sorted'
PROPERTY='C11'
NEEDS='an even number of keyframes, each adjacent pair (0,1), (2,3), ... in order, but a later pair before an earlier one'
BREAKS='such keyframes are taken as sorted already and stay out of order'
EDITS=[('client/rust/src/contract/properties/channels/channel.rs', '        let mut keyframes: Vec<_> = keyframes.collect();\n', '        let mut keyframes: Vec<Keyframe<T>> = keyframes.collect();\n        // Most clips arrive in order\n        if keyframes\n            .chunks(2)\n            .all(|pair| pair[0].time() <= pair[pair.len() - 1].time())\n        {\n            return Self(keyframes);\n        }\n')]
MAIN=HEAD+'\nfn main() {\n    for times in [vec![0.0, 1.0, 2.0, 3.0], vec![3.0, 2.0, 1.0], vec![2.0, 3.0, 0.0, 1.0]] {\n        let c = Channel::new(times.into_iter().enumerate().map(|(i, t)| Keyframe::new(i as u8, t)));\n        assert!(c.keyframes().windows(2).all(|w| w[0].time() <= w[1].time()));\n    }\n}'
