exec(open('/verif/tools/seeds/pre.py').read())
ID='c20-lookup-cache'
PROPERTY='C20'
NEEDS='several threads that look up different objects of one baseline at the same time'
BREAKS='concurrent readers race on a cached lookup and are given another object than they asked for'
EDITS=[('client/rust/src/baseline.rs', '    objects: Arena<Object>,\n', '    objects: Arena<Object>,\n    last_key: AtomicU64,           // the object that was looked up last\n    last_object: AtomicPtr<Object>, // and where it is\n'), ('client/rust/src/baseline.rs', '            kind,\n            objects,\n', '            kind,\n            last_key: AtomicU64::new(u64::MAX),\n            last_object: AtomicPtr::default(),\n            objects,\n'), ('client/rust/src/baseline.rs', 'use itertools::Itertools;\n', 'use itertools::Itertools;\nuse std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};\n'), ('client/rust/src/baseline.rs', '    pub fn object(&self, obj: ObjectHandle) -> Result<&Object> {\n        self.objects\n            .get(obj)\n            .ok_or_else(|| eyre!("The given handle doesn\'t exist in the Arena"))\n    }\n\n    pub fn object_mut(&mut self, obj: ObjectHandle) -> Result<&mut Object> {\n        self.objects\n', '    pub fn object(&self, obj: ObjectHandle) -> Result<&Object> {\n        let (slot, generation) = arena::generational_arena::Index::from(obj).into_raw_parts();\n        let key = (slot as u64) << 32 | generation & 0xffff_ffff;\n        if self.last_key.load(Ordering::Acquire) == key {\n            // Safety: reset whenever the arena is borrowed mutably\n            return Ok(unsafe { &*self.last_object.load(Ordering::Acquire) });\n        }\n        let object = self\n            .objects\n            .get(obj)\n            .ok_or_else(|| eyre!("The given handle doesn\'t exist in the Arena"))?;\n        self.last_object\n            .store(object as *const Object as *mut Object, Ordering::Release);\n        self.last_key.store(key, Ordering::Release);\n        Ok(object)\n    }\n\n    pub fn object_mut(&mut self, obj: ObjectHandle) -> Result<&mut Object> {\n        *self.last_key.get_mut() = u64::MAX;\n        self.objects\n'), ('client/rust/src/baseline.rs', '        let obj_handle = self.objects.insert(object);\n', '        *self.last_key.get_mut() = u64::MAX;\n        let obj_handle = self.objects.insert(object);\n'), ('client/rust/src/baseline.rs', '        self.objects.remove(obj);\n', '        *self.last_key.get_mut() = u64::MAX;\n        self.objects.remove(obj);\n'), ('client/rust/src/baseline.rs', '        &mut self.objects[index]\n', '        *self.last_key.get_mut() = u64::MAX;\n        &mut self.objects[index]\n')]
MAIN=HEAD+'\ncontract!(A, SA { a: u8 }, ChA {}, "x", (1, 2, 3));\nfn main() {\n    let mut b = Baseline::new(BaselineKind::Main);\n    let c = b.register_contract::<A>().unwrap();\n    let os: Vec<_> = (0..8).map(|_| b.object_create(&c, vec![DynTpProperty::from(1u8)].into_iter(), [].into_iter()).unwrap()).collect();\n    let hs: Vec<_> = os.iter().map(|o| b.bind_state(c.states().a(), *o).unwrap()).collect();\n    let (b, c, os, hs) = (&b, &c, &os, &hs);\n    let start = std::time::Instant::now();\n    std::thread::scope(|s| for t in 0..8usize { s.spawn(move || {\n        let mut i = t;\n        while start.elapsed().as_secs() < 20 {\n            for _ in 0..1000 {\n                i = (i + 1) % 8;\n                if b.object(os[i]).unwrap().state(c.states().a()) != hs[i] { println!("wrong object"); std::process::exit(1); }\n            }\n        }\n    }); });\n}'
