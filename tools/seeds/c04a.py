exec(open('/verif/tools/seeds/pre.py').read())
ID="c04-missing-tail"; PROPERTY="C04"
NEEDS="an object created with fewer fields than its contract declares, the given ones matching"
BREAKS="object_create accepts field lists that end too early"
EDITS=[("client/rust/src/baseline.rs","""                        if let EitherOrBoth::Both(p, t) = either {
                            if p.prop_type() != *t {""","""                        if let EitherOrBoth::Right(_) = either {
                            // Fields without a value are bound later.
                            Ok(acc)
                        } else if let EitherOrBoth::Both(p, t) = either {
                            if p.prop_type() != *t {""")]
MAIN=HEAD+'''
contract!(A, SA { a: u8, b: String }, ChA {}, "x", (1, 2, 3));
fn main() {
    let mut b = Baseline::new(BaselineKind::Main);
    let c = b.register_contract::<A>().unwrap();
    let s = vec![DynTpProperty::from(1u8), DynTpProperty::from("x".to_string())];
    assert!(b.object_create(&c, s.clone().into_iter(), std::iter::empty()).is_ok());
    assert!(b.object_create(&c, s.into_iter().take(1), std::iter::empty()).is_err());
    assert_eq!(b.iter_objects().count(), 1);
}'''
