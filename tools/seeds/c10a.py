exec(open('/verif/tools/seeds/pre.py').read())
ID='c10-nth-at-the-end'
PROPERTY='C10'
NEEDS='nth (or skip) with exactly the number of fields that remain'
BREAKS='the field iterators panic instead of ending when skipping exactly to their end'
EDITS=[('client/rust/src/contract/properties/mod.rs', '                if new_pos >= n_fields {\n                    self.pos = n_fields;', '                if new_pos > n_fields {\n                    self.pos = n_fields;')]
MAIN=HEAD+'\ncontract!(A, SA { a: u8, b: u16 }, ChA {}, "x", (1, 2, 3));\nfn main() {\n    let mut b = Baseline::new(BaselineKind::Main);\n    let c = b.register_contract::<A>().unwrap();\n    assert!(c.state_iter().nth(1).is_some());\n    assert!(c.state_iter().nth(3).is_none());\n    assert!(c.state_iter().nth(2).is_none());\n}'
