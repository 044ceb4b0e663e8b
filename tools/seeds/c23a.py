exec(open('/verif/tools/seeds/pre.py').read())
ID='c23-graveyard'
PROPERTY='C23'
NEEDS='very many objects removed over the life of a baseline'
BREAKS='every removed object leaves its handle in a list that is never cleared'
EDITS=[('client/rust/src/baseline.rs', '    objects: Arena<Object>,\n', '    objects: Arena<Object>,\n    removed: Vec<ObjectHandle>,\n'), ('client/rust/src/baseline.rs', '            kind,\n            objects,\n', '            kind,\n            removed: Vec::new(),\n            objects,\n'), ('client/rust/src/baseline.rs', '        self.objects.remove(obj);\n', '        self.objects.remove(obj);\n        // So that a stale handle can be told from an invalid one\n        self.removed.push(obj);\n'), ('client/rust/src/baseline.rs', '            .ok_or_else(|| eyre!("The given handle doesn\'t exist in the Arena"))\n    }\n\n    pub fn object_mut(', '            .ok_or_else(|| {\n                if self.removed.contains(&obj) {\n                    eyre!("The given handle is of an object that was removed")\n                } else {\n                    eyre!("The given handle doesn\'t exist in the Arena")\n                }\n            })\n    }\n\n    pub fn object_mut(')]
MAIN=HEAD+'\nuse std::alloc::*; use std::sync::atomic::*;\nstatic LIVE: AtomicIsize = AtomicIsize::new(0);\nstruct A1;\nunsafe impl GlobalAlloc for A1 {\n    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }\n    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }\n}\n#[global_allocator] static G: A1 = A1;\ncontract!(A, SA { a: u8 }, ChA {}, "x", (1, 2, 3));\nfn main() {\n    let mut b = Baseline::new(BaselineKind::Main);\n    let c = b.register_contract::<A>().unwrap();\n    let mut run = |n| for _ in 0..n {\n        let o = b.object_create(&c, vec![DynTpProperty::from(1u8)].into_iter(), [].into_iter()).unwrap();\n        b.object_remove::<A>(o).unwrap();\n    };\n    run(100);\n    let before = LIVE.load(Ordering::Relaxed);\n    run(100_000);\n    let grown = LIVE.load(Ordering::Relaxed) - before;\n    assert!(grown < 10_000, "grew by {grown}");\n}'
