exec(open('/verif/tools/seeds/pre.py').read())
ID="c14-skip-rejected"; PROPERTY="C14"
NEEDS="a rejected batch followed by another pending one"
BREAKS="try_apply moves on to the next pending batch after a rejection, so the rejected batch is never handed back"
EDITS=[("client/rust/src/engine.rs","""        let collaction = self.receiver.try_recv()?;
        let result = self.apply_collaction(collaction);
        Ok(result)""","""        let collaction = self.receiver.try_recv()?;
        let mut result = self.apply_collaction(collaction);
        // Do not make the caller wait for another call after a rejection.
        while result.is_err() {
            match self.receiver.try_recv() {
                Ok(next) => result = self.apply_collaction(next),
                Err(_) => break,
            }
        }
        Ok(result)""")]
MAIN=HEAD+'''
use tp_client::action::{property::*, *};
use tp_client::engine::Engine;
use tp_client::realm::{Realm, RealmID};
contract!(A, SA { a: u8 }, ChA {}, "x", (1, 2, 3));
fn main() {
    let (mut e, tx) = Engine::new(Realm::new(RealmID::new("r".into())), None);
    let b = e.realm_mut().baseline_mut(BaselineKind::Fork);
    let c = b.register_contract::<A>().unwrap();
    let o = b.object_create(&c, vec![DynTpProperty::from(7u8)].into_iter(), std::iter::empty()).unwrap();
    let h = DynStateHandle::from(b.bind_state(c.states().a(), o).unwrap());
    let batch = |v: u8| Collaction::verif_new(vec![Action::Property(PropertyAction::State(StateAction::Assert { handle: h, data: v.into() }))]);
    for v in [1, 7, 2, 7] { tx.send(batch(v)).unwrap(); }
    let got: Vec<bool> = (0..4).map(|_| e.try_apply().expect("a batch is pending").is_ok()).collect();
    assert_eq!(got, [false, true, false, true]);
    assert!(e.try_apply().is_err());
}'''
