exec(open('/verif/tools/seeds/pre.py').read())
ID='c14-zero-timeout'
PROPERTY='C14'
NEEDS='a batch that is pending when apply_timeout is called with a zero timeout'
BREAKS='a pending batch is not handled by apply_timeout with a zero timeout'
EDITS=[('client/rust/src/engine.rs', '        let collaction = self.receiver.recv_timeout(timeout)?;', '        if timeout.is_zero() {\n            // Nothing can arrive in no time\n            return Err(RecvTimeoutError::Timeout);\n        }\n        let collaction = self.receiver.recv_timeout(timeout)?;')]
MAIN=HEAD+'\nuse tp_client::action::*; use tp_client::action::property::*; use tp_client::engine::Engine; use tp_client::realm::*; use tp_client::time::*;\nfn main() {\n    let (mut e, s) = Engine::new(Realm::new(RealmID::new("x".into())), None);\n    for d in [std::time::Duration::from_millis(1), std::time::Duration::ZERO] {\n        s.send(Collaction::verif_new(vec![])).unwrap();\n        assert!(matches!(e.apply_timeout(d), Ok(Ok(_))));\n    }\n}'
