exec(open('/verif/tools/seeds/pre.py').read())
ID='c19-repeated-segment'
PROPERTY='C19'
DEPS='rsharp = { path = "/repo/crates/rsharp/rust" }\n'
LOCK='/verif/harness/capi/Cargo.lock'
NEEDS='a path in which a segment follows an equal one'
BREAKS='the repeated segment is dropped from the exported name, so that two paths give the same name'
EDITS=[('crates/rsharp/rust/macro/src/remangle.rs', '    for module in m.split("::") {\n        if module.is_empty() {\n            continue;\n        }\n', '    let mut previous = "";\n    for module in m.split("::") {\n        // `a::a` is the facade of a module, and not another one\n        if module.is_empty() || module == previous {\n            continue;\n        }\n        previous = module;\n')]
MAIN='\nextern crate rsharp;\n#[rsharp::remangle("a::b::b")] pub fn f() -> u8 { 1 }\n#[rsharp::remangle("a::b")] pub fn g() -> u8 { 2 }\nfn main() { assert_eq!((f(), a__b__b__f(), g(), a__b__g()), (1, 1, 2, 2)); }'
