exec(open('/verif/tools/seeds/pre.py').read())
ID='c05-tidy-keyframes'
PROPERTY='C05'
NEEDS='keyframes stored through keyframes_mut, out of order, then keyframes_mut used again before they are read'
BREAKS='a channel write through the mutable view is reordered by the next mutable access'
EDITS=[('client/rust/src/contract/properties/channels/channel.rs', '    pub fn keyframes_mut(&mut self) -> &mut Vec<Keyframe<T>> {\n        &mut self.0', '    pub fn keyframes_mut(&mut self) -> &mut Vec<Keyframe<T>> {\n        // Appending may have left the keyframes out of order\n        self.0.sort_by(|a, b| a.time().total_cmp(&b.time()));\n        &mut self.0')]
MAIN=HEAD+'\nfn main() {\n    let mut c = Channel::new(vec![Keyframe::new(1u8, 0.0), Keyframe::new(2u8, 1.0)].into_iter());\n    c.keyframes_mut()[0] = Keyframe::new(7, 5.0);\n    c.keyframes_mut()[1] = Keyframe::new(9, 3.0);\n    let got: Vec<_> = c.keyframes().iter().map(|k| (*k.value(), k.time())).collect();\n    assert_eq!(got, [(7, 5.0), (9, 3.0)]);\n}'
