exec(open('/verif/tools/seeds/pre.py').read())
ID='c18-channel-id-path'
PROPERTY='C18'
DEPS='tp_client = { path = "/repo/client/rust" }\nrsharp = { path = "/repo/crates/rsharp/rust" }\n'
LOCK='/verif/harness/capi/Cargo.lock'
NEEDS='looking at the exported name of a function of channel ids'
BREAKS='the functions of channel ids are exported under the path of the states module'
EDITS=[('client/rust/src/contract/properties/channels/mod.rs', '    primitives!(; types, monomorphize, "tp_client::contract::properties::channels");', '    primitives!(; types, monomorphize, "tp_client::contract::properties::states");')]
MAIN='\n#![allow(dead_code, improper_ctypes, non_snake_case)]\nextern crate tp_client; extern crate rsharp;\n#[repr(C)] #[derive(Clone, Copy)] struct Sl<T> { ptr: *const T, len: usize }\n#[repr(C)] struct V { ptr: *mut u8, len: usize, cap: usize }\ntype P = *mut u8;\n\nextern "C" { fn tp_client__contract__properties__channels__ChannelId_U8__contract(s: P) -> P; }\nfn main() { assert!(tp_client__contract__properties__channels__ChannelId_U8__contract as usize != 0); }'
