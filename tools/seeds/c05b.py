exec(open('/verif/tools/seeds/pre.py').read())
ID='c05-negative-clock'
PROPERTY='C05'
NEEDS='a realm whose clock is negative'
BREAKS='writes to the fork arrive in main while the clock of the realm is negative'
EDITS=[('client/rust/src/realm.rs', '            BaselineKind::Fork => &mut self.baseline_fork,', '            BaselineKind::Fork if self.time.ticks().as_millis() >= 0 => &mut self.baseline_fork,\n            // Before the session starts there is nothing to fork from\n            BaselineKind::Fork => &mut self.baseline_main,')]
MAIN=HEAD+'\nuse tp_client::action::*; use tp_client::action::property::*; use tp_client::engine::Engine; use tp_client::realm::*; use tp_client::time::*;\ncontract!(A, SA { a: u64 }, ChA {}, "x", (1, 2, 3));\nfn main() {\n    for t in [0, 5, -5] {\n        let mut r = Realm::new(RealmID::new("x".into()));\n        *r.time_mut().ticks_mut() = Ticks::new(t);\n        let b = r.baseline_mut(BaselineKind::Fork);\n        let c = b.register_contract::<A>().unwrap();\n        b.object_create(&c, vec![DynTpProperty::from(7u64)].into_iter(), [].into_iter()).unwrap();\n        assert_eq!(r.baseline(BaselineKind::Fork).iter_objects().count(), 1);\n        assert_eq!(r.baseline(BaselineKind::Main).iter_objects().count(), 0);\n    }\n}'
