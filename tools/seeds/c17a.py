exec(open('/verif/tools/seeds/pre.py').read())
ID='c17-text-ends-at-nul'
PROPERTY='C17'
DEPS='tp_client = { path = "/repo/client/rust" }\nrsharp = { path = "/repo/crates/rsharp/rust" }\n'
LOCK='/verif/harness/capi/Cargo.lock'
NEEDS='a UTF-16 text with a NUL character inside'
BREAKS='text that crosses in UTF-16 is cut off at its first NUL'
EDITS=[('crates/rsharp/rust/src/string.rs', '    let utf16 = utf16.as_slice();\n', '    let utf16 = utf16.as_slice();\n    // Callers may have counted the terminator\n    let utf16 = utf16.split(|unit| *unit == 0).next().unwrap_or_default();\n')]
MAIN='\n#![allow(dead_code, improper_ctypes, non_snake_case)]\nextern crate tp_client; extern crate rsharp;\n#[repr(C)] #[derive(Clone, Copy)] struct Sl<T> { ptr: *const T, len: usize }\n#[repr(C)] struct V { ptr: *mut u8, len: usize, cap: usize }\ntype P = *mut u8;\n\nextern "C" { fn rsharp__String__copy_utf16(s: Sl<u16>) -> P; fn rsharp__String__value(s: P) -> Sl<u8>; fn rsharp__String__drop(s: P); }\nfn main() { unsafe {\n    for text in ["", "abc", "\\u{1F600} x", "a\\0b"] {\n        let u: Vec<u16> = text.encode_utf16().collect();\n        let s = rsharp__String__copy_utf16(Sl { ptr: u.as_ptr(), len: u.len() });\n        let v = rsharp__String__value(s);\n        assert_eq!(std::slice::from_raw_parts(v.ptr, v.len), text.as_bytes());\n        rsharp__String__drop(s);\n    }\n} }'
