exec(open('/verif/tools/seeds/pre.py').read())
ID='c22-too-many-states'
PROPERTY='C22'
NEEDS='data in which an object has more states than its contract declares'
BREAKS='reading such data panics, or accepts an object whose states do not match its contract'
EDITS=[('client/serialize/rust/src/deserializer/new/mod.rs', '        if num_states_found != num_states_expected {', '        if num_states_found < num_states_expected {')]
DEMO='#!/bin/bash\n# Builds main.rs against /repo and runs it: exit 0 if the property holds.\nhere=$(cd "$(dirname "$0")" && pwd)\nd=$(mktemp -d /tmp/demo.XXXXXX) || exit 99\ntrap \'rm -rf "$d"\' EXIT\nmkdir -p "$d/demo/src" && cp "$here/main.rs" "$d/demo/src/main.rs" && cp "$here/Cargo.lock" "$d/demo/Cargo.lock" && cp -r "$here/shims" "$d/shims"\ncat > "$d/demo/Cargo.toml" <<\'EOF\'\n[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\ntp_client = { path = "/repo/client/rust" }\ntp_serialize = { path = "../shims/tp_serialize" }\nflatbuffers = { path = "../shims/flatbuffers" }\n[profile.dev]\nopt-level = 1\ndebug = 0\ndebug-assertions = true\nEOF\nexport HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0\nexport RUSTFLAGS=\'--cfg tp_verif -Awarnings\' CARGO_TARGET_DIR="$d/target"\ncd "$d/demo" || exit 99\ncargo build --offline -q || exit 98\ntimeout 120 "$d/target/debug/demo"\n'
COPY=['/verif/shims', '/verif/harness/ser/Cargo.lock']
MAIN='\n#![allow(dead_code, unused_imports)]\nuse tp_client::baseline::{Baseline, BaselineKind};\nuse tp_client::contract::properties::channels::*;\nuse tp_client::contract::properties::dynamic::*;\nuse tp_client::contract::properties::states::*;\nuse tp_client::contract::*;\nuse tp_client::object::ObjectHandle;\nmacro_rules! contract {\n    ($C:ident, $S:ident { $($sf:ident : $st:ty),* }, $Ch:ident { $($cf:ident : $ct:ty),* }, $name:expr, $ver:expr) => {\n        #[states] pub struct $S { $($sf: $st),* }\n        #[channels] pub struct $Ch { $($cf: $ct),* }\n        pub struct $C { h: ContractDataHandle, s: $S, c: $Ch }\n        impl Contract for $C {\n            type States = $S; type Channels = $Ch;\n            const ID: ContractId = ContractId { name: $name, version: $ver };\n            fn new(h: ContractDataHandle) -> Self { Self { h, s: $S::new(h), c: $Ch::new(h) } }\n            fn states(&self) -> &$S { &self.s }\n            fn channels(&self) -> &$Ch { &self.c }\n            fn handle(&self) -> ContractDataHandle { self.h }\n        }\n    };\n}\n\nuse tp_serialize::{Deserializer, DeserializerBuilder, Serializer};\n\nuse tp_serialize as _;\ncontract!(A, SA { a: u32 }, ChA {}, "x", (1, 2, 3));\ncontract!(Two, STwo { a: u32, b: u32 }, ChTwo {}, "x", (1, 2, 3));\nfn main() {\n    // data of `Two`, with the description of its contract cut down to that of `A`\n    let mut b = Baseline::new(BaselineKind::Main);\n    let c = b.register_contract::<Two>().unwrap();\n    b.object_create(&c, vec![DynTpProperty::from(1u32), DynTpProperty::from(2u32)].into_iter(), [].into_iter()).unwrap();\n    let mut s = Serializer::new(flatbuffers::FlatBufferBuilder::new(), &b);\n    s.serialize(&c).unwrap();\n    let data = s.finish().finished_data().to_vec();\n    let two = 2u32.to_le_bytes();\n    let at: Vec<usize> = (0..data.len() - 3).step_by(4).filter(|i| data[*i..*i + 4] == two).collect();\n    std::panic::set_hook(Box::new(|_| {}));\n    let mut reached = 0;\n    for set in 0..1u32 << at.len() {\n        let mut data = data.clone();\n        for (k, i) in at.iter().enumerate() { if set >> k & 1 == 1 { data[*i] = 1; } }\n        let Ok(mut d) = DeserializerBuilder::new(&data, BaselineKind::Main) else { continue };\n        let Ok(c) = d.register_contract::<A>() else { continue };\n        let mut d = d.finish();\n        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.deserialize_objects(&c).is_ok()));\n        reached += 1;\n        match r { Err(_) => { println!("panicked"); std::process::exit(1) } Ok(_) => {} }\n    }\n    println!("{reached}");\n    assert!(reached > 0);\n}'
