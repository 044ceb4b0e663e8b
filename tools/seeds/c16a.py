exec(open('/verif/tools/seeds/pre.py').read())
ID='c16-set-forgets'
PROPERTY='C16'
DEPS='tp_client = { path = "/repo/client/rust" }\nrsharp = { path = "/repo/crates/rsharp/rust" }\n'
LOCK='/verif/harness/capi/Cargo.lock'
NEEDS='RVec set on an element whose value owns heap memory (a keyframe of a String)'
BREAKS='the overwritten element of a list is never released'
EDITS=[('crates/rsharp/rust/src/rvec.rs', '                vec[idx] = *value.into();', '                let value: $t = *value.into();\n                unsafe { std::ptr::write(&mut vec[idx], value) }')]
MAIN='\n#![allow(dead_code, improper_ctypes, non_snake_case)]\nextern crate tp_client; extern crate rsharp;\n#[repr(C)] #[derive(Clone, Copy)] struct Sl<T> { ptr: *const T, len: usize }\n#[repr(C)] struct V { ptr: *mut u8, len: usize, cap: usize }\ntype P = *mut u8;\n\nuse std::alloc::*; use std::sync::atomic::*;\nstatic LIVE: AtomicIsize = AtomicIsize::new(0);\nstruct A1;\nunsafe impl GlobalAlloc for A1 {\n    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }\n    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }\n}\n#[global_allocator] static G: A1 = A1;\nextern "C" {\n    fn rsharp__String__copy_utf8(s: Sl<u8>) -> P;\n    fn tp_client__contract__properties__channels__Keyframe_String__new(v: P, t: f64) -> P;\n    fn tp_client__contract__properties__channels__RVec_KeyframeString__new() -> V;\n    fn tp_client__contract__properties__channels__RVec_KeyframeString__push(v: &mut V, k: P);\n    fn tp_client__contract__properties__channels__RVec_KeyframeString__set(v: &mut V, i: usize, k: P);\n    fn tp_client__contract__properties__channels__RVec_KeyframeString__drop(v: V);\n}\nunsafe fn key(s: &str) -> P { tp_client__contract__properties__channels__Keyframe_String__new(rsharp__String__copy_utf8(Sl { ptr: s.as_ptr(), len: s.len() }), 1.0) }\nunsafe fn go() {\n    let mut v = tp_client__contract__properties__channels__RVec_KeyframeString__new();\n    tp_client__contract__properties__channels__RVec_KeyframeString__push(&mut v, key("a text that is stored"));\n    tp_client__contract__properties__channels__RVec_KeyframeString__set(&mut v, 0, key("another text"));\n    tp_client__contract__properties__channels__RVec_KeyframeString__drop(v);\n}\nfn main() {\n    unsafe { go() }\n    let before = LIVE.load(Ordering::Relaxed);\n    unsafe { go() }\n    assert_eq!(LIVE.load(Ordering::Relaxed), before);\n}'
