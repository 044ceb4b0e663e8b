exec(open('/verif/tools/seeds/pre.py').read())
ID="c15-undo-order"; PROPERTY="C15"
NEEDS="a rejected batch that wrote the same field more than once with different values"
BREAKS="writes are undone first to last, so the fork keeps a value of the rejected batch"
EDITS=[("client/rust/src/engine.rs","self.reverse_actions(applied_actions.into_iter().rev());","self.reverse_actions(applied_actions.into_iter());")]
MAIN=HEAD+'''
use tp_client::action::{property::*, *};
use tp_client::engine::Engine;
use tp_client::realm::{Realm, RealmID};
contract!(A, SA { a: u8 }, ChA {}, "x", (1, 2, 3));
fn main() {
    let (mut e, tx) = Engine::new(Realm::new(RealmID::new("r".into())), None);
    let b = e.realm_mut().baseline_mut(BaselineKind::Fork);
    let c = b.register_contract::<A>().unwrap();
    let o = b.object_create(&c, vec![DynTpProperty::from(7u8)].into_iter(), std::iter::empty()).unwrap();
    let h = b.bind_state(c.states().a(), o).unwrap();
    let w = |v: u8| Action::Property(PropertyAction::State(StateAction::Write { handle: h.into(), data: v.into() }));
    let a = |v: u8| Action::Property(PropertyAction::State(StateAction::Assert { handle: h.into(), data: v.into() }));
    tx.send(Collaction::verif_new(vec![w(1), w(2), a(2), w(3), a(9)])).unwrap();
    assert!(e.try_apply().unwrap().is_err());
    assert_eq!(e.realm().baseline(BaselineKind::Fork)[h].value, 7);
}'''
