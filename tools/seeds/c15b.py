exec(open('/verif/tools/seeds/pre.py').read())
ID='c15-long-batch-undo'
PROPERTY='C15'
NEEDS='a batch of more than 64 writes whose later action fails'
BREAKS='only the last 64 writes of a rejected batch are undone'
EDITS=[('client/rust/src/engine.rs', '        for action in actions {\n            self.reverse_action(action);', '        // Bounds the work that a rejected batch can cause\n        const UNDO_DEPTH: usize = 1 << 6;\n        for action in actions.take(UNDO_DEPTH) {\n            self.reverse_action(action);')]
MAIN=HEAD+'\nuse tp_client::action::*; use tp_client::action::property::*; use tp_client::engine::Engine; use tp_client::realm::*; use tp_client::time::*;\ncontract!(A, SA { a: u64 }, ChA {}, "x", (1, 2, 3));\nfn main() {\n    for n in [3u64, 300] {\n        let (mut e, s) = Engine::new(Realm::new(RealmID::new("x".into())), None);\n        let b = e.realm_mut().baseline_mut(BaselineKind::Fork);\n        let c = b.register_contract::<A>().unwrap();\n        let o = b.object_create(&c, vec![DynTpProperty::from(7u64)].into_iter(), [].into_iter()).unwrap();\n        let h = b.bind_state(c.states().a(), o).unwrap();\n        let mut acts: Vec<Action> = (0..n).map(|i| Action::Property(PropertyAction::State(StateAction::Write { handle: h.into(), data: i.into() }))).collect();\n        acts.push(Action::Property(PropertyAction::State(StateAction::Assert { handle: h.into(), data: 12345u64.into() })));\n        s.send(Collaction::verif_new(acts)).unwrap();\n        assert!(matches!(e.try_apply(), Ok(Err(_))));\n        assert_eq!(e.realm().baseline(BaselineKind::Fork).state(h).unwrap().value, 7);\n    }\n}'
