//! The C interface as a C client sees it: raw pointers and plain structures.
use vcore::types::*;
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

/// Any opaque pointer.
pub type P = *mut u8;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Slice<T> {
    pub ptr: *const T,
    pub len: usize,
}
#[repr(C)]
pub struct CVec {
    pub ptr: P,
    pub len: usize,
    pub cap: usize,
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Version {
    pub major: u16,
    pub minor: u16,
    pub patch: u16,
}

extern "C" {
    pub fn tp_client__baseline__Baseline__new(kind: u8) -> P;
    pub fn tp_client__baseline__Baseline__drop(b: P);
    pub fn tp_client__baseline__Baseline__kind(b: P) -> u8;
    pub fn tp_client__baseline__Baseline__contract_data(b: P, h: P) -> P;
    pub fn tp_client__baseline__Baseline__object(b: P, h: P) -> P;
    pub fn tp_client__baseline__Baseline__object_mut(b: P, h: P) -> P;
    pub fn tp_client__contract__ContractDataHandle__drop(h: P);
    pub fn tp_client__contract__ContractData__id(cd: P) -> P;
    pub fn tp_client__contract__ContractData__objects(cd: P) -> CVec;
    pub fn tp_client__contract__ContractData__objects_drop(v: CVec);
    pub fn tp_client__contract__ContractId__name(id: P) -> Slice<u8>;
    pub fn tp_client__contract__ContractId__version(id: P) -> Version;
    pub fn tp_client__object__ObjectHandle__drop(h: P);
    pub fn rsharp__String__value(s: P) -> Slice<u8>;
    pub fn rsharp__String__drop(s: P);
    pub fn rsharp__String__copy_utf8(s: Slice<u8>) -> P;
    pub fn rsharp__String__copy_utf16(s: Slice<u16>) -> P;
    pub fn tp_contract_example__ExampleContract__drop(c: P);
    pub fn tp_contract_example__ExampleContract__handle(c: P) -> P;
    pub fn tp_contract_example__ExampleContract__states(c: P) -> P;
    pub fn tp_contract_example__ExampleContract__object_create(
        c: P, b: P, u8_0: u8, u8_1: u8, i8_0: i8, i8_1: i8, f32_0: f32, f32_1: f32, str_0: P, oh_0: P, ch_0: P,
    ) -> P;
    pub fn tp_contract_example__ExampleContract__object_remove(b: P, o: P);
    pub fn tp_contract_example__ExampleContract__register(b: P) -> P;
    pub fn tp_contract_example__ExampleStates__u8_0(s: P) -> P;
    pub fn tp_contract_example__ExampleStates__u8_1(s: P) -> P;
    pub fn tp_contract_example__ExampleStates__i8_0(s: P) -> P;
    pub fn tp_contract_example__ExampleStates__i8_1(s: P) -> P;
    pub fn tp_contract_example__ExampleStates__f32_0(s: P) -> P;
    pub fn tp_contract_example__ExampleStates__f32_1(s: P) -> P;
    pub fn tp_contract_example__ExampleStates__str_0(s: P) -> P;
    pub fn tp_contract_example__ExampleStates__oh_0(s: P) -> P;
    pub fn tp_contract_example__ExampleStates__ch_0(s: P) -> P;
    pub fn BallContract__register(b: P) -> P;
    pub fn BallContract__unregister(b: P, h: P);
    pub fn BallContract__drop(c: P);
    pub fn BallContract__handle(c: P) -> P;
    pub fn BallContract__states(c: P) -> P;
    pub fn BallContract__object_create(
        b: P, c: P, px: f32, py: f32, pz: f32, ex: i16, ey: i16, ez: i16, sx: f32, sy: f32, sz: f32, color: u64,
    ) -> P;
    pub fn BallContract__object_remove(b: P, o: P);
    pub fn BallStates__pos_x(s: P) -> P;
    pub fn BallStates__pos_y(s: P) -> P;
    pub fn BallStates__pos_z(s: P) -> P;
    pub fn BallStates__euler_x(s: P) -> P;
    pub fn BallStates__euler_y(s: P) -> P;
    pub fn BallStates__euler_z(s: P) -> P;
    pub fn BallStates__scale_x(s: P) -> P;
    pub fn BallStates__scale_y(s: P) -> P;
    pub fn BallStates__scale_z(s: P) -> P;
    pub fn BallStates__color(s: P) -> P;
}

/// The functions the interface exports for each value type.
pub trait CTy: Prop + Clone {
    const NAME: &'static str;
    /// a new owned value, made by the interface
    unsafe fn v_new(&self, alt: bool) -> P;
    /// what a C client reads through a borrowed or owned value
    unsafe fn v_read(p: P) -> Self;
    unsafe fn v_drop(p: P);
    unsafe fn b_state(b: P, h: P) -> P;
    unsafe fn b_state_mut(b: P, h: P) -> P;
    unsafe fn b_channel(b: P, h: P) -> P;
    unsafe fn b_channel_mut(b: P, h: P) -> P;
    unsafe fn b_bind_state(b: P, id: P, o: P) -> P;
    unsafe fn b_bind_channel(b: P, id: P, o: P) -> P;
    unsafe fn s_new(v: P) -> P;
    unsafe fn s_drop(s: P);
    unsafe fn s_value(s: P) -> P;
    unsafe fn s_set(s: P, v: P);
    unsafe fn sh_drop(h: P);
    unsafe fn sid_contract(id: P) -> P;
    unsafe fn sid_drop(id: P);
    unsafe fn cid_contract(id: P) -> P;
    unsafe fn cid_drop(id: P);
    unsafe fn ch_drop(h: P);
    unsafe fn kf_new(v: P, t: f64) -> P;
    unsafe fn kf_drop(k: P);
    unsafe fn kf_value(k: P) -> P;
    unsafe fn kf_time(k: P) -> f64;
    unsafe fn rv_new() -> CVec;
    unsafe fn rv_push(v: *mut CVec, k: P);
    unsafe fn rv_drop(v: CVec);
    unsafe fn rv_get(v: *const CVec, i: usize) -> P;
    unsafe fn rv_set(v: *mut CVec, i: usize, k: P);
    unsafe fn c_new(v: CVec) -> P;
    unsafe fn c_drop(c: P);
    unsafe fn c_keyframes(c: P) -> CVec;
    unsafe fn c_keyframes_mut(c: P) -> CVec;
    unsafe fn c_keyframes_drop(v: CVec);
    unsafe fn c_keyframes_mut_drop(v: CVec);
}

macro_rules! per_type {
    ($($t:ident $n:ident { $($val:tt)* })*) => {$( paste::paste! {
        mod [<f_ $n>] {
            use super::*;
            extern "C" {
                pub fn [<tp_client__baseline__Baseline__state_ $n>](b: P, h: P) -> P;
                pub fn [<tp_client__baseline__Baseline__state_mut_ $n>](b: P, h: P) -> P;
                pub fn [<tp_client__baseline__Baseline__channel_ $n>](b: P, h: P) -> P;
                pub fn [<tp_client__baseline__Baseline__channel_mut_ $n>](b: P, h: P) -> P;
                pub fn [<tp_client__baseline__Baseline__bind_state_ $n>](b: P, id: P, o: P) -> P;
                pub fn [<tp_client__baseline__Baseline__bind_channel_ $n>](b: P, id: P, o: P) -> P;
                pub fn [<tp_client__contract__properties__states__State_ $n __new>](v: P) -> P;
                pub fn [<tp_client__contract__properties__states__State_ $n __drop>](s: P);
                pub fn [<tp_client__contract__properties__states__State_ $n __value>](s: P) -> P;
                pub fn [<tp_client__contract__properties__states__State_ $n __value_set>](s: P, v: P);
                pub fn [<tp_client__contract__properties__states__StateHandle_ $n __drop>](h: P);
                pub fn [<tp_client__contract__properties__states__StateId_ $n __contract>](id: P) -> P;
                pub fn [<tp_client__contract__properties__states__StateId_ $n __drop>](id: P);
                pub fn [<tp_client__contract__properties__channels__ChannelId_ $n __contract>](id: P) -> P;
                pub fn [<tp_client__contract__properties__channels__ChannelId_ $n __drop>](id: P);
                pub fn [<tp_client__contract__properties__channels__ChannelHandle_ $n __drop>](h: P);
                pub fn [<tp_client__contract__properties__channels__Keyframe_ $n __new>](v: P, t: f64) -> P;
                pub fn [<tp_client__contract__properties__channels__Keyframe_ $n __drop>](k: P);
                pub fn [<tp_client__contract__properties__channels__Keyframe_ $n __value>](k: P) -> P;
                pub fn [<tp_client__contract__properties__channels__Keyframe_ $n __time>](k: P) -> f64;
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __new>]() -> CVec;
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __push>](v: *mut CVec, k: P);
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __drop>](v: CVec);
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __get>](v: *const CVec, i: usize) -> P;
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __set>](v: *mut CVec, i: usize, k: P);
                pub fn [<tp_client__contract__properties__channels__Channel_ $n __new>](v: CVec) -> P;
                pub fn [<tp_client__contract__properties__channels__Channel_ $n __drop>](c: P);
                pub fn [<tp_client__contract__properties__channels__Channel_ $n __keyframes>](c: P) -> CVec;
                pub fn [<tp_client__contract__properties__channels__Channel_ $n __keyframes_mut>](c: P) -> CVec;
                pub fn [<tp_client__contract__properties__channels__Channel_ $n __keyframes_drop>](v: CVec);
                pub fn [<tp_client__contract__properties__channels__Channel_ $n __keyframes_mut_drop>](v: CVec);
            }
        }
        impl CTy for $t {
            const NAME: &'static str = stringify!($n);
            $($val)*
            unsafe fn b_state(b: P, h: P) -> P { [<f_ $n>]::[<tp_client__baseline__Baseline__state_ $n>](b, h) }
            unsafe fn b_state_mut(b: P, h: P) -> P { [<f_ $n>]::[<tp_client__baseline__Baseline__state_mut_ $n>](b, h) }
            unsafe fn b_channel(b: P, h: P) -> P { [<f_ $n>]::[<tp_client__baseline__Baseline__channel_ $n>](b, h) }
            unsafe fn b_channel_mut(b: P, h: P) -> P { [<f_ $n>]::[<tp_client__baseline__Baseline__channel_mut_ $n>](b, h) }
            unsafe fn b_bind_state(b: P, id: P, o: P) -> P { [<f_ $n>]::[<tp_client__baseline__Baseline__bind_state_ $n>](b, id, o) }
            unsafe fn b_bind_channel(b: P, id: P, o: P) -> P { [<f_ $n>]::[<tp_client__baseline__Baseline__bind_channel_ $n>](b, id, o) }
            unsafe fn s_new(v: P) -> P { [<f_ $n>]::[<tp_client__contract__properties__states__State_ $n __new>](v) }
            unsafe fn s_drop(s: P) { [<f_ $n>]::[<tp_client__contract__properties__states__State_ $n __drop>](s) }
            unsafe fn s_value(s: P) -> P { [<f_ $n>]::[<tp_client__contract__properties__states__State_ $n __value>](s) }
            unsafe fn s_set(s: P, v: P) { [<f_ $n>]::[<tp_client__contract__properties__states__State_ $n __value_set>](s, v) }
            unsafe fn sh_drop(h: P) { [<f_ $n>]::[<tp_client__contract__properties__states__StateHandle_ $n __drop>](h) }
            unsafe fn sid_contract(id: P) -> P { [<f_ $n>]::[<tp_client__contract__properties__states__StateId_ $n __contract>](id) }
            unsafe fn sid_drop(id: P) { [<f_ $n>]::[<tp_client__contract__properties__states__StateId_ $n __drop>](id) }
            unsafe fn cid_contract(id: P) -> P { [<f_ $n>]::[<tp_client__contract__properties__channels__ChannelId_ $n __contract>](id) }
            unsafe fn cid_drop(id: P) { [<f_ $n>]::[<tp_client__contract__properties__channels__ChannelId_ $n __drop>](id) }
            unsafe fn ch_drop(h: P) { [<f_ $n>]::[<tp_client__contract__properties__channels__ChannelHandle_ $n __drop>](h) }
            unsafe fn kf_new(v: P, t: f64) -> P { [<f_ $n>]::[<tp_client__contract__properties__channels__Keyframe_ $n __new>](v, t) }
            unsafe fn kf_drop(k: P) { [<f_ $n>]::[<tp_client__contract__properties__channels__Keyframe_ $n __drop>](k) }
            unsafe fn kf_value(k: P) -> P { [<f_ $n>]::[<tp_client__contract__properties__channels__Keyframe_ $n __value>](k) }
            unsafe fn kf_time(k: P) -> f64 { [<f_ $n>]::[<tp_client__contract__properties__channels__Keyframe_ $n __time>](k) }
            unsafe fn rv_new() -> CVec { [<f_ $n>]::[<tp_client__contract__properties__channels__RVec_Keyframe $n __new>]() }
            unsafe fn rv_push(v: *mut CVec, k: P) { [<f_ $n>]::[<tp_client__contract__properties__channels__RVec_Keyframe $n __push>](v, k) }
            unsafe fn rv_drop(v: CVec) { [<f_ $n>]::[<tp_client__contract__properties__channels__RVec_Keyframe $n __drop>](v) }
            unsafe fn rv_get(v: *const CVec, i: usize) -> P { [<f_ $n>]::[<tp_client__contract__properties__channels__RVec_Keyframe $n __get>](v, i) }
            unsafe fn rv_set(v: *mut CVec, i: usize, k: P) { [<f_ $n>]::[<tp_client__contract__properties__channels__RVec_Keyframe $n __set>](v, i, k) }
            unsafe fn c_new(v: CVec) -> P { [<f_ $n>]::[<tp_client__contract__properties__channels__Channel_ $n __new>](v) }
            unsafe fn c_drop(c: P) { [<f_ $n>]::[<tp_client__contract__properties__channels__Channel_ $n __drop>](c) }
            unsafe fn c_keyframes(c: P) -> CVec { [<f_ $n>]::[<tp_client__contract__properties__channels__Channel_ $n __keyframes>](c) }
            unsafe fn c_keyframes_mut(c: P) -> CVec { [<f_ $n>]::[<tp_client__contract__properties__channels__Channel_ $n __keyframes_mut>](c) }
            unsafe fn c_keyframes_drop(v: CVec) { [<f_ $n>]::[<tp_client__contract__properties__channels__Channel_ $n __keyframes_drop>](v) }
            unsafe fn c_keyframes_mut_drop(v: CVec) { [<f_ $n>]::[<tp_client__contract__properties__channels__Channel_ $n __keyframes_mut_drop>](v) }
        }
    })*};
}

macro_rules! boxes {
    ($($t:ident $n:ident)*) => { paste::paste! {
        extern "C" { $(
            fn [<rsharp__Box_ $n __new>](v: $t) -> P;
            fn [<rsharp__Box_ $n __drop>](p: P);
        )* }
        per_type! { $($t $n {
            unsafe fn v_new(&self, _: bool) -> P { [<rsharp__Box_ $n __new>](*self) }
            unsafe fn v_read(p: P) -> Self { *(p as *const $t) }
            unsafe fn v_drop(p: P) { [<rsharp__Box_ $n __drop>](p) }
        })* }
    }};
}
boxes! { u8 U8  u16 U16  u32 U32  u64 U64  i8 I8  i16 I16  i32 I32  i64 I64  bool Bool  f32 F32  f64 F64 }

per_type! {
    String String {
        unsafe fn v_new(&self, alt: bool) -> P {
            if alt {
                let u: Vec<u16> = self.encode_utf16().collect();
                rsharp__String__copy_utf16(Slice { ptr: u.as_ptr(), len: u.len() })
            } else {
                rsharp__String__copy_utf8(Slice { ptr: self.as_ptr(), len: self.len() })
            }
        }
        unsafe fn v_read(p: P) -> Self {
            let s = rsharp__String__value(p);
            String::from_utf8_lossy(std::slice::from_raw_parts(s.ptr, s.len)).into_owned()
        }
        unsafe fn v_drop(p: P) { rsharp__String__drop(p) }
    }
    // the client copies an owned handle it was given earlier
    ObjectHandle ObjectHandle {
        unsafe fn v_new(&self, _: bool) -> P { Box::into_raw(Box::new(*self)) as P }
        unsafe fn v_read(p: P) -> Self { *(p as *const ObjectHandle) }
        unsafe fn v_drop(p: P) { tp_client__object__ObjectHandle__drop(p) }
    }
    ContractDataHandle ContractDataHandle {
        unsafe fn v_new(&self, _: bool) -> P { Box::into_raw(Box::new(*self)) as P }
        unsafe fn v_read(p: P) -> Self { *(p as *const ContractDataHandle) }
        unsafe fn v_drop(p: P) { tp_client__contract__ContractDataHandle__drop(p) }
    }
}
