exec(open('/verif/tools/seeds/pre.py').read())
ID='c04-eager-states'
PROPERTY='C04'
NEEDS='a creation that is refused because of its channels'
BREAKS='the states of a refused object stay in storage'
EDITS=[('client/rust/src/baseline.rs', '        let states: Vec<DynTpProperty> = check_types!(states, state_types)?;\n        let channels: Vec<DynChannel> = check_types!(channels, channel_types)?;\n\n        // actually do the creation\n        let mut state_handles: Vec<arena::generational_arena::Index> = Vec::new();\n        let mut channel_handles: Vec<arena::generational_arena::Index> = Vec::new();\n\n        for s in states {\n            apply_to_prop!(s, |s| state_handles.push(self.state_create(s).into()));\n        }\n', '        let states: Vec<DynTpProperty> = check_types!(states, state_types)?;\n\n        // actually do the creation\n        let mut state_handles: Vec<arena::generational_arena::Index> = Vec::new();\n        let mut channel_handles: Vec<arena::generational_arena::Index> = Vec::new();\n\n        for s in states {\n            apply_to_prop!(s, |s| state_handles.push(self.state_create(s).into()));\n        }\n        let channels: Vec<DynChannel> = check_types!(channels, channel_types)?;\n')]
MAIN=HEAD+'contract!(A, SA { a: u64 }, ChA { c: u8 }, "x", (1, 2, 3));\nfn main() {\n    let mut b = Baseline::new(BaselineKind::Main);\n    let c = b.register_contract::<A>().unwrap();\n    let state = || vec![DynTpProperty::from(3u64)].into_iter();\n    let o = b.object_create(&c, state(), vec![DynChannel::Primitive(Channel::<u8>::new(vec![].into_iter()).into())].into_iter()).unwrap();\n    let h = b.bind_state(c.states().a(), o).unwrap();\n    b.object_remove::<A>(o).unwrap();\n    // every refused creation would leave another state behind\n    for _ in 0..3 {\n        assert!(b.object_create(&c, state(), [].into_iter()).is_err());\n    }\n    let o = b.object_create(&c, state(), vec![DynChannel::Primitive(Channel::<u8>::new(vec![].into_iter()).into())].into_iter()).unwrap();\n    let k = b.bind_state(c.states().a(), o).unwrap();\n    let slot = |h: StateHandle<u64>| arena::generational_arena::Index::from(h).into_raw_parts().0;\n    assert_eq!(slot(h), slot(k), "the slot that removal freed is taken by a state that no object has");\n}'
