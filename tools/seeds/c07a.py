exec(open('/verif/tools/seeds/pre.py').read())
ID='c07-limited-lists'
PROPERTY='C07'
NEEDS='a list of more than 65535 elements, wrapped directly as a dynamic property'
BREAKS='the end of a long list is lost when it is wrapped'
EDITS=[('client/rust/src/contract/properties/dynamic/from_impls.rs', '''            fn from(other: Vec<$t>) -> Self {
                DynTpVec::from(other).into()
            }''', '''            fn from(mut other: Vec<$t>) -> Self {
                // The length of a property fits in 16 bits
                other.truncate(u16::MAX.into());
                DynTpVec::from(other).into()
            }''')]
MAIN=HEAD+'''fn main() {
    for n in [0u32, 10, 65_535, 65_536, 70_000] {
        let v: Vec<u32> = (0..n).collect();
        let d = DynTpProperty::from(v.clone());
        let back = match d { DynTpProperty::Vec(DynTpVec::U32(v)) => v, _ => panic!("another type") };
        assert!(back == v, "{} of {n} elements came back", back.len());
    }
}'''
