exec(open('/verif/tools/seeds/pre.py').read())
ID='c09-view-of-a-page'
PROPERTY='C09'
NEEDS='a dynamic list of more than 1024 elements, borrowed mutably'
BREAKS='a mutable view of a long list ends early'
EDITS=[('client/rust/src/contract/properties/dynamic/borrow_impls.rs', '''                        DynTpVec::$ident(inner) => DynTpVecMut::from(inner.as_mut_slice()).into(),''', '''                        // A view never spans more than a page
                        DynTpVec::$ident(inner) => DynTpVecMut::from(inner.chunks_mut(1024).next().unwrap_or_default()).into(),''')]
MAIN=HEAD+'''
fn main() {
    for n in [0u8, 10, 200] {
        let n = n as usize * 7;
        let mut d = DynTpProperty::from(vec![1u8; n]);
        match DynTpPropertyMut::from(&mut d) {
            DynTpPropertyMut::Vec(DynTpVecMut::U8(s)) => s.iter_mut().for_each(|x| *x = 2),
            _ => panic!("another type"),
        }
        assert!(d == vec![2u8; n], "a part of the list was out of reach");
    }
}'''
