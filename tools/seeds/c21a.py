exec(open('/verif/tools/seeds/pre.py').read())
ID='c21-narrow-state-index'
PROPERTY='C21'
NEEDS='more than 65536 states in one serialised baseline'
BREAKS='the states of objects beyond the 65536th come back as those of other objects'
EDITS=[('client/serialize/rust/src/serializer/mod.rs', 'fb::StateHandle::create(fbb, &StateHandleArgs { idx: idx as u32 });', 'fb::StateHandle::create(fbb, &StateHandleArgs { idx: (idx as u16).into() });')]
DEMO='#!/bin/bash\n# Builds main.rs against /repo and runs it: exit 0 if the property holds.\nhere=$(cd "$(dirname "$0")" && pwd)\nd=$(mktemp -d /tmp/demo.XXXXXX) || exit 99\ntrap \'rm -rf "$d"\' EXIT\nmkdir -p "$d/demo/src" && cp "$here/main.rs" "$d/demo/src/main.rs" && cp "$here/Cargo.lock" "$d/demo/Cargo.lock" && cp -r "$here/shims" "$d/shims"\ncat > "$d/demo/Cargo.toml" <<\'EOF\'\n[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\ntp_client = { path = "/repo/client/rust" }\ntp_serialize = { path = "../shims/tp_serialize" }\nflatbuffers = { path = "../shims/flatbuffers" }\n[profile.dev]\nopt-level = 1\ndebug = 0\ndebug-assertions = true\nEOF\nexport HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0\nexport RUSTFLAGS=\'--cfg tp_verif -Awarnings\' CARGO_TARGET_DIR="$d/target"\ncd "$d/demo" || exit 99\ncargo build --offline -q || exit 98\ntimeout 120 "$d/target/debug/demo"\n'
COPY=['/verif/shims', '/verif/harness/ser/Cargo.lock']
MAIN='\n#![allow(dead_code, unused_imports)]\nuse tp_client::baseline::{Baseline, BaselineKind};\nuse tp_client::contract::properties::channels::*;\nuse tp_client::contract::properties::dynamic::*;\nuse tp_client::contract::properties::states::*;\nuse tp_client::contract::*;\nuse tp_client::object::ObjectHandle;\nmacro_rules! contract {\n    ($C:ident, $S:ident { $($sf:ident : $st:ty),* }, $Ch:ident { $($cf:ident : $ct:ty),* }, $name:expr, $ver:expr) => {\n        #[states] pub struct $S { $($sf: $st),* }\n        #[channels] pub struct $Ch { $($cf: $ct),* }\n        pub struct $C { h: ContractDataHandle, s: $S, c: $Ch }\n        impl Contract for $C {\n            type States = $S; type Channels = $Ch;\n            const ID: ContractId = ContractId { name: $name, version: $ver };\n            fn new(h: ContractDataHandle) -> Self { Self { h, s: $S::new(h), c: $Ch::new(h) } }\n            fn states(&self) -> &$S { &self.s }\n            fn channels(&self) -> &$Ch { &self.c }\n            fn handle(&self) -> ContractDataHandle { self.h }\n        }\n    };\n}\n\nuse tp_serialize::{Deserializer, DeserializerBuilder, Serializer};\n\ncontract!(A, SA { a: u32 }, ChA {}, "x", (1, 2, 3));\nfn main() {\n    for n in [10u32, 66_000] {\n        let mut b = Baseline::new(BaselineKind::Main);\n        let c = b.register_contract::<A>().unwrap();\n        for i in 0..n { b.object_create(&c, vec![DynTpProperty::from(i)].into_iter(), [].into_iter()).unwrap(); }\n        let mut s = Serializer::new(flatbuffers::FlatBufferBuilder::new(), &b);\n        s.serialize(&c).unwrap();\n        let fbb = s.finish();\n        let mut d = DeserializerBuilder::new(fbb.finished_data(), BaselineKind::Main).unwrap();\n        let c = d.register_contract::<A>().unwrap();\n        let mut d = d.finish();\n        d.deserialize_objects(&c).unwrap();\n        let b = d.finish().unwrap();\n        let mut got: Vec<u32> = b.iter_objects().map(|(o, _)| b.state(b.bind_state(c.states().a(), o).unwrap()).unwrap().value).collect();\n        got.sort();\n        assert_eq!(got, (0..n).collect::<Vec<_>>());\n    }\n}'
