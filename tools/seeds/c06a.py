exec(open('/verif/tools/seeds/pre.py').read())
ID='c06-contract-slot'
PROPERTY='C06'
NEEDS='a contract unregistered and another registration made in its slot; then an id of the first is bound to an object of the second'
BREAKS='state ids of a retired registration bind to objects of the registration that reuses its slot'
EDITS=[('client/rust/src/object.rs', '        id: StateId<T>,\n    ) -> Result<StateHandle<T>> {\n        if id.contract() != self.contract() {', '        id: StateId<T>,\n    ) -> Result<StateHandle<T>> {\n        let slot = |contract: ContractDataHandle| ga::Index::from(contract).into_raw_parts().0;\n        if slot(id.contract()) != slot(self.contract()) {')]
MAIN=HEAD+'\ncontract!(A, SA { a: u8 }, ChA {}, "x", (1, 2, 3));\nfn main() {\n    let mut b = Baseline::new(BaselineKind::Main);\n    let c = b.register_contract::<A>().unwrap();\n    let old = c.states().a();\n    b.unregister_contract::<A>(c.handle()).unwrap();\n    let c = b.register_contract::<A>().unwrap();\n    let o = b.object_create(&c, vec![DynTpProperty::from(1u8)].into_iter(), [].into_iter()).unwrap();\n    assert!(b.bind_state(c.states().a(), o).is_ok());\n    assert!(b.bind_state(old, o).is_err());\n}'
