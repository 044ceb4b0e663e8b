exec(open('/verif/tools/seeds/pre.py').read())
ID='c14-rendezvous-buffered'
PROPERTY='C14'
NEEDS='an engine created with a queue capacity of zero'
BREAKS='a queue of capacity 0 holds one batch'
EDITS=[('client/rust/src/engine.rs', '            crossbeam_channel::bounded(cap)\n', '            crossbeam_channel::bounded(cap.max(1))\n')]
MAIN=HEAD+'\nuse tp_client::action::*; use tp_client::engine::Engine; use tp_client::realm::*;\nfn main() {\n    let (_e, s) = Engine::new(Realm::new(RealmID::new("x".into())), Some(0));\n    assert!(s.try_send(Collaction::verif_new(vec![])).is_err());\n    let (_e, s) = Engine::new(Realm::new(RealmID::new("x".into())), Some(1));\n    assert!(s.try_send(Collaction::verif_new(vec![])).is_ok());\n    assert!(s.try_send(Collaction::verif_new(vec![])).is_err());\n}'
