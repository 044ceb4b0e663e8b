exec(open("/verif/tools/seeds/pre.py").read())
ID="c03-version-compatible"; PROPERTY="C03"
NEEDS="two contracts of the same name whose versions differ only in the patch number"
BREAKS="registration compares only name, major and minor version, so a different contract identity is refused"
EDITS=[("client/rust/src/baseline.rs","            if c_id == C::ID {\n","            let (major, minor, _) = C::ID.version;\n            if c_id.name == C::ID.name && (c_id.version.0, c_id.version.1) == (major, minor) {\n")]
MAIN=HEAD+'''
contract!(A, SA { a: u8 }, ChA {}, "x", (1, 2, 3));
contract!(B, SB { a: u8 }, ChB {}, "x", (1, 2, 4));
contract!(D, SD { a: u8 }, ChD {}, "x", (1, 3, 3));
fn main() {
    let mut b = Baseline::new(BaselineKind::Main);
    b.register_contract::<A>().unwrap();
    b.register_contract::<D>().unwrap();
    assert!(b.register_contract::<A>().is_err());
    b.register_contract::<B>().unwrap();
}'''
