//! A model of property values that shares no code with tp_client, and the
//! conversions to and from the real types.
use crate::rng::Rng;
use arena::generational_arena::Index as GaIndex;
use better_borrow::BBorrow;
use tp_client::contract::properties::channels::dyn_channel::*;
use tp_client::contract::properties::channels::dyn_handle::*;
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::dyn_handle::*;
use tp_client::contract::properties::states::dyn_state::*;
use tp_client::contract::properties::states::id::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::properties::traits::*;
use tp_client::contract::ContractDataHandle;
use tp_client::object::{Object, ObjectHandle};

/// One primitive, by its bits.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cell {
    Bits(u64),
    Str(String),
    Handle(usize, u64),
}

/// A property value: a primitive type, and either one cell or a list of them.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Val {
    pub ty: usize,
    pub list: bool,
    pub cells: Vec<Cell>,
}

pub const TYPE_NAMES: [&str; 14] = [
    "U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64", "Bool", "F32", "F64", "String",
    "ObjectHandle", "ContractDataHandle",
];
pub const TAGS: [TpPrimitiveType; 14] = [
    TpPrimitiveType::U8,
    TpPrimitiveType::U16,
    TpPrimitiveType::U32,
    TpPrimitiveType::U64,
    TpPrimitiveType::I8,
    TpPrimitiveType::I16,
    TpPrimitiveType::I32,
    TpPrimitiveType::I64,
    TpPrimitiveType::Bool,
    TpPrimitiveType::F32,
    TpPrimitiveType::F64,
    TpPrimitiveType::String,
    TpPrimitiveType::ObjectHandle,
    TpPrimitiveType::ContractDataHandle,
];

/// The tag of model type (`ty`, `list`).
pub fn tag(ty: usize, list: bool) -> TpPropertyType {
    if list {
        TpPropertyType::Vec(TAGS[ty])
    } else {
        TpPropertyType::Primitive(TAGS[ty])
    }
}
/// The model's own comparison of tags, by shape, not by their `==`.
pub fn tag_is(t: TpPropertyType, ty: usize, list: bool) -> bool {
    let (l, p) = match t {
        TpPropertyType::Vec(p) => (true, p),
        TpPropertyType::Primitive(p) => (false, p),
    };
    l == list && format!("{p:?}") == TYPE_NAMES[ty]
}

pub fn ohandle(i: usize, g: u64) -> ObjectHandle {
    arena::Index::new(GaIndex::from_raw_parts(i, g))
}
pub fn chandle(i: usize, g: u64) -> ContractDataHandle {
    arena::Index::new(GaIndex::from_raw_parts(i, g))
}
pub fn raw<T>(h: arena::Index<T>) -> (usize, u64) {
    let g: GaIndex = h.into();
    g.into_raw_parts()
}

pub const STRS: [&str; 8] = ["", "a", "b", "ab", "\u{0}", "héllo ✓", "1", "0"];
pub const F64S: [u64; 10] = [
    0,                     // 0.0
    0x8000_0000_0000_0000, // -0.0
    0x7ff0_0000_0000_0000, // inf
    0xfff0_0000_0000_0000, // -inf
    0x7ff8_0000_0000_0000, // NaN
    0x7ff8_0000_0000_1234, // NaN with payload
    0xfff8_0000_0000_0001, // negative NaN
    0x3ff0_0000_0000_0000, // 1.0
    1,                     // subnormal
    0x7fef_ffff_ffff_ffff, // max
];
pub const F32S: [u32; 9] = [
    0,
    0x8000_0000,
    0x7f80_0000,
    0xff80_0000,
    0x7fc0_0000,
    0x7fc0_1234,
    0x3f80_0000,
    1,
    0x7f7f_ffff,
];

pub fn gen_cell(ty: usize, r: &mut Rng) -> Cell {
    let small = r.chance(1, 2);
    let int = |r: &mut Rng, bits: u32| -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match r.below(6) {
            0 => 0,
            1 => mask,
            2 => 1u64 << (bits - 1),
            3 => (1u64 << (bits - 1)) - 1,
            4 => r.below(4) as u64,
            _ => r.next(),
        };
        v & mask
    };
    match ty {
        0 | 4 => Cell::Bits(int(r, 8)),
        1 | 5 => Cell::Bits(int(r, 16)),
        2 | 6 => Cell::Bits(int(r, 32)),
        3 | 7 => Cell::Bits(int(r, 64)),
        8 => Cell::Bits(r.below(2) as u64),
        9 => Cell::Bits(if small { *r.pick(&F32S) as u64 } else { (r.next() as u32) as u64 }),
        10 => Cell::Bits(if small { *r.pick(&F64S) } else { r.next() }),
        11 => Cell::Str(if small {
            r.pick(&STRS).to_string()
        } else {
            let n = r.below(40);
            (0..n).map(|_| char::from_u32(32 + r.below(500) as u32).unwrap()).collect()
        }),
        _ => {
            if small {
                Cell::Handle(r.below(3), r.below(3) as u64)
            } else {
                Cell::Handle((r.next() >> 1) as usize, r.next())
            }
        }
    }
}

thread_local! {
    /// How long generated lists, texts and channels are, if not of random lengths.
    pub static LONG: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
pub fn gen_val(ty: usize, list: bool, r: &mut Rng) -> Val {
    let long = LONG.with(|l| l.get());
    if long > 0 && (list || ty == 11) {
        let n = long + r.below(3);
        let cells = if list {
            let few: Vec<Cell> = (0..8).map(|_| gen_cell(ty, r)).collect();
            (0..n).map(|i| if i + 1 == n { gen_cell(ty, r) } else { few[i % 8].clone() }).collect()
        } else {
            let mut s = "\u{fc}x".repeat(n / 2);
            s.push((b'a' + r.below(26) as u8) as char);
            vec![Cell::Str(s)]
        };
        return Val { ty, list, cells };
    }
    let n = if list {
        if r.chance(1, 10) {
            r.below(70)
        } else {
            r.below(5)
        }
    } else {
        1
    };
    Val {
        ty,
        list,
        cells: (0..n).map(|_| gen_cell(ty, r)).collect(),
    }
}

/// What `==` of the plain types means.
pub fn cell_eq(ty: usize, a: &Cell, b: &Cell) -> bool {
    match (ty, a, b) {
        (9, Cell::Bits(a), Cell::Bits(b)) => f32::from_bits(*a as u32) == f32::from_bits(*b as u32),
        (10, Cell::Bits(a), Cell::Bits(b)) => f64::from_bits(*a) == f64::from_bits(*b),
        _ => a == b,
    }
}
pub fn val_eq(a: &Val, b: &Val) -> bool {
    a.ty == b.ty
        && a.list == b.list
        && a.cells.len() == b.cells.len()
        && a.cells.iter().zip(&b.cells).all(|(x, y)| cell_eq(a.ty, x, y))
}

pub trait Prim: ITpData {
    const TY: usize;
    fn cell(&self) -> Cell;
    fn from_cell(c: &Cell) -> Self;
}

macro_rules! prim_int {
    ($($t:ty, $u:ty, $i:expr);*) => {$(
        impl Prim for $t {
            const TY: usize = $i;
            fn cell(&self) -> Cell { Cell::Bits(*self as $u as u64) }
            fn from_cell(c: &Cell) -> Self {
                match c { Cell::Bits(b) => *b as $u as $t, _ => panic!("model cell") }
            }
        }
    )*};
}
prim_int!(u8,u8,0; u16,u16,1; u32,u32,2; u64,u64,3; i8,u8,4; i16,u16,5; i32,u32,6; i64,u64,7);
impl Prim for bool {
    const TY: usize = 8;
    fn cell(&self) -> Cell {
        Cell::Bits(*self as u64)
    }
    fn from_cell(c: &Cell) -> Self {
        c == &Cell::Bits(1)
    }
}
impl Prim for f32 {
    const TY: usize = 9;
    fn cell(&self) -> Cell {
        Cell::Bits(self.to_bits() as u64)
    }
    fn from_cell(c: &Cell) -> Self {
        match c {
            Cell::Bits(b) => f32::from_bits(*b as u32),
            _ => panic!("model cell"),
        }
    }
}
impl Prim for f64 {
    const TY: usize = 10;
    fn cell(&self) -> Cell {
        Cell::Bits(self.to_bits())
    }
    fn from_cell(c: &Cell) -> Self {
        match c {
            Cell::Bits(b) => f64::from_bits(*b),
            _ => panic!("model cell"),
        }
    }
}
impl Prim for String {
    const TY: usize = 11;
    fn cell(&self) -> Cell {
        Cell::Str(self.clone())
    }
    fn from_cell(c: &Cell) -> Self {
        match c {
            Cell::Str(s) => s.clone(),
            _ => panic!("model cell"),
        }
    }
}
impl Prim for ObjectHandle {
    const TY: usize = 12;
    fn cell(&self) -> Cell {
        let (i, g) = raw(*self);
        Cell::Handle(i, g)
    }
    fn from_cell(c: &Cell) -> Self {
        match c {
            Cell::Handle(i, g) => ohandle(*i, *g),
            _ => panic!("model cell"),
        }
    }
}
impl Prim for ContractDataHandle {
    const TY: usize = 13;
    fn cell(&self) -> Cell {
        let (i, g) = raw(*self);
        Cell::Handle(i, g)
    }
    fn from_cell(c: &Cell) -> Self {
        match c {
            Cell::Handle(i, g) => chandle(*i, *g),
            _ => panic!("model cell"),
        }
    }
}

/// Any of the 28 property types.
pub trait Prop: ITpPropertyStatic {
    const TY: usize;
    const LIST: bool;
    fn val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
    /// changes contents in place where that is possible for a borrowed view
    fn dyn_prop(self) -> DynTpProperty;
    fn from_dyn_prop(d: DynTpProperty) -> Result<Self, String>;
    fn dyn_ref(&self) -> DynTpPropertyRef<'_>;
    fn dyn_mut(&mut self) -> DynTpPropertyMut<'_>;
    fn dyn_state(s: State<Self>) -> DynState;
    fn dyn_state_ref(s: &State<Self>) -> DynStateRef<'_>;
    fn dyn_state_mut(s: &mut State<Self>) -> DynStateMut<'_>;
    fn dyn_shandle(h: StateHandle<Self>) -> DynStateHandle;
    fn from_dyn_shandle(h: DynStateHandle) -> Result<StateHandle<Self>, String>;
    fn dyn_chandle(h: ChannelHandle<Self>) -> DynChannelHandle;
    fn from_dyn_chandle(h: DynChannelHandle) -> Result<ChannelHandle<Self>, String>;
    fn dyn_chan(c: Channel<Self>) -> DynChannel;
    fn from_dyn_chan(c: DynChannel) -> Result<Channel<Self>, String>;
    fn dyn_chan_ref(c: &Channel<Self>) -> DynChannelRef<'_>;
    fn dyn_chan_mut(c: &mut Channel<Self>) -> DynChannelMut<'_>;
    fn dyn_sid(id: StateId<Self>) -> DynStateId;
    fn from_dyn_sid(id: DynStateId) -> Result<StateId<Self>, String>;
    fn dyn_cid(id: ChannelId<Self>) -> DynChannelId;
    fn from_dyn_cid(id: DynChannelId) -> Result<ChannelId<Self>, String>;
    /// Some(result) for the types `Object::state` and `Object::channel` take
    fn object_state(o: &Object, id: StateId<Self>) -> Option<StateHandle<Self>>;
    fn object_channel(o: &Object, id: ChannelId<Self>) -> Option<ChannelHandle<Self>>;
}

macro_rules! conv {
    ($x:expr, $mid:ty) => {{
        let m: $mid = $x.try_into().map_err(|e| format!("{e}"))?;
        m.try_into().map_err(|e| format!("{e}"))
    }};
}

macro_rules! prop_common {
    ($t:ty, $pdyn:ty, $shp:ty, $chp:ty, $dcp:ty, $sip:ty, $cip:ty) => {
        fn dyn_prop(self) -> DynTpProperty { DynTpProperty::from(self) }
        fn from_dyn_prop(d: DynTpProperty) -> Result<Self, String> { conv!(d, $pdyn) }
        fn dyn_ref(&self) -> DynTpPropertyRef<'_> { DynTpPropertyRef::from(self) }
        fn dyn_mut(&mut self) -> DynTpPropertyMut<'_> { DynTpPropertyMut::from(self) }
        fn dyn_state(s: State<Self>) -> DynState { DynState::from(s) }
        fn dyn_state_ref(s: &State<Self>) -> DynStateRef<'_> { DynStateRef::from(s) }
        fn dyn_state_mut(s: &mut State<Self>) -> DynStateMut<'_> { DynStateMut::from(s) }
        fn dyn_shandle(h: StateHandle<Self>) -> DynStateHandle { DynStateHandle::from(h) }
        fn from_dyn_shandle(h: DynStateHandle) -> Result<StateHandle<Self>, String> { conv!(h, $shp) }
        fn dyn_chandle(h: ChannelHandle<Self>) -> DynChannelHandle { <$chp>::from(h).into() }
        fn from_dyn_chandle(h: DynChannelHandle) -> Result<ChannelHandle<Self>, String> { conv!(h, $chp) }
        fn dyn_chan(c: Channel<Self>) -> DynChannel { <$dcp>::from(c).into() }
        fn from_dyn_chan(c: DynChannel) -> Result<Channel<Self>, String> { conv!(c, $dcp) }
        fn dyn_chan_ref(c: &Channel<Self>) -> DynChannelRef<'_> { DynChannelRef::from(c) }
        fn dyn_chan_mut(c: &mut Channel<Self>) -> DynChannelMut<'_> { DynChannelMut::from(c) }
        fn dyn_sid(id: StateId<Self>) -> DynStateId { <$sip>::from(id).into() }
        fn from_dyn_sid(id: DynStateId) -> Result<StateId<Self>, String> { conv!(id, $sip) }
        fn dyn_cid(id: ChannelId<Self>) -> DynChannelId { <$cip>::from(id).into() }
        fn from_dyn_cid(id: DynChannelId) -> Result<ChannelId<Self>, String> { conv!(id, $cip) }
    };
}
macro_rules! impl_prop {
    ($($t:ty),*) => {$(
        impl Prop for $t {
            const TY: usize = <$t as Prim>::TY;
            const LIST: bool = false;
            fn val(&self) -> Val { Val { ty: <$t as Prim>::TY, list: false, cells: vec![self.cell()] } }
            fn from_val(v: &Val) -> Self { assert!(!v.list && v.ty == <$t as Prim>::TY); <$t>::from_cell(&v.cells[0]) }
            prop_common!($t, DynTpPrimitive, DynStateHandlePrimitive, DynChannelHandlePrimitive, DynChannelPrimitive, DynStateIdPrimitive, DynChannelIdPrimitive);
            fn object_state(o: &Object, id: StateId<Self>) -> Option<StateHandle<Self>> { Some(o.state(id)) }
            fn object_channel(o: &Object, id: ChannelId<Self>) -> Option<ChannelHandle<Self>> { Some(o.channel(id)) }
        }
        impl Prop for Vec<$t> {
            const TY: usize = <$t as Prim>::TY;
            const LIST: bool = true;
            fn val(&self) -> Val { Val { ty: <$t as Prim>::TY, list: true, cells: self.iter().map(|x| x.cell()).collect() } }
            fn from_val(v: &Val) -> Self { assert!(v.list && v.ty == <$t as Prim>::TY); v.cells.iter().map(<$t>::from_cell).collect() }
            prop_common!($t, DynTpVec, DynStateHandleVec, DynChannelHandleVec, DynChannelVec, DynStateIdVec, DynChannelIdVec);
            fn object_state(_: &Object, _: StateId<Self>) -> Option<StateHandle<Self>> { None }
            fn object_channel(_: &Object, _: ChannelId<Self>) -> Option<ChannelHandle<Self>> { None }
        }
    )*};
}
impl_prop!(u8, u16, u32, u64, i8, i16, i32, i64, bool, f32, f64, String, ObjectHandle, ContractDataHandle);

/// Runs the generic code with the concrete type for model type (`ty`, `list`).
#[macro_export]
macro_rules! dispatch {
    ($ty:expr, $list:expr, $T:ident => $e:expr) => {{
        use tp_client::contract::ContractDataHandle as __CH;
        use tp_client::object::ObjectHandle as __OH;
        match ($ty, $list) {
            (0, false) => { type $T = u8; $e }
            (1, false) => { type $T = u16; $e }
            (2, false) => { type $T = u32; $e }
            (3, false) => { type $T = u64; $e }
            (4, false) => { type $T = i8; $e }
            (5, false) => { type $T = i16; $e }
            (6, false) => { type $T = i32; $e }
            (7, false) => { type $T = i64; $e }
            (8, false) => { type $T = bool; $e }
            (9, false) => { type $T = f32; $e }
            (10, false) => { type $T = f64; $e }
            (11, false) => { type $T = String; $e }
            (12, false) => { type $T = __OH; $e }
            (13, false) => { type $T = __CH; $e }
            (0, true) => { type $T = Vec<u8>; $e }
            (1, true) => { type $T = Vec<u16>; $e }
            (2, true) => { type $T = Vec<u32>; $e }
            (3, true) => { type $T = Vec<u64>; $e }
            (4, true) => { type $T = Vec<i8>; $e }
            (5, true) => { type $T = Vec<i16>; $e }
            (6, true) => { type $T = Vec<i32>; $e }
            (7, true) => { type $T = Vec<i64>; $e }
            (8, true) => { type $T = Vec<bool>; $e }
            (9, true) => { type $T = Vec<f32>; $e }
            (10, true) => { type $T = Vec<f64>; $e }
            (11, true) => { type $T = Vec<String>; $e }
            (12, true) => { type $T = Vec<__OH>; $e }
            (13, true) => { type $T = Vec<__CH>; $e }
            _ => unreachable!(),
        }
    }};
}

/// The same for primitive types only.
#[macro_export]
macro_rules! dispatch_prim {
    ($ty:expr, $T:ident => $e:expr) => {{
        use tp_client::contract::ContractDataHandle as __CH;
        use tp_client::object::ObjectHandle as __OH;
        match $ty {
            0 => { type $T = u8; $e }
            1 => { type $T = u16; $e }
            2 => { type $T = u32; $e }
            3 => { type $T = u64; $e }
            4 => { type $T = i8; $e }
            5 => { type $T = i16; $e }
            6 => { type $T = i32; $e }
            7 => { type $T = i64; $e }
            8 => { type $T = bool; $e }
            9 => { type $T = f32; $e }
            10 => { type $T = f64; $e }
            11 => { type $T = String; $e }
            12 => { type $T = __OH; $e }
            13 => { type $T = __CH; $e }
            _ => unreachable!(),
        }
    }};
}

pub fn to_dyn(v: &Val) -> DynTpProperty {
    dispatch!(v.ty, v.list, T => T::from_val(v).dyn_prop())
}

macro_rules! match_all {
    ($e:expr, $en:ident, $x:ident => $b:expr) => {
        match $e {
            $en::U8($x) => $b,
            $en::U16($x) => $b,
            $en::U32($x) => $b,
            $en::U64($x) => $b,
            $en::I8($x) => $b,
            $en::I16($x) => $b,
            $en::I32($x) => $b,
            $en::I64($x) => $b,
            $en::Bool($x) => $b,
            $en::F32($x) => $b,
            $en::F64($x) => $b,
            $en::String($x) => $b,
            $en::ObjectHandle($x) => $b,
            $en::ContractDataHandle($x) => $b,
        }
    };
}

fn slice_val<T: Prim>(x: &[T]) -> Val {
    Val {
        ty: T::TY,
        list: true,
        cells: x.iter().map(|c| c.cell()).collect(),
    }
}

/// Contents of an owned dynamic value, by matching on its variants.
pub fn dyn_val(d: &DynTpProperty) -> Val {
    match d {
        DynTpProperty::Primitive(p) => match_all!(p, DynTpPrimitive, x => x.val()),
        DynTpProperty::Vec(p) => match_all!(p, DynTpVec, x => x.val()),
    }
}
pub fn ref_val(d: &DynTpPropertyRef<'_>) -> Val {
    match d {
        DynTpPropertyRef::Primitive(p) => match_all!(p, DynTpPrimitiveRef, x => (**x).val()),
        DynTpPropertyRef::Vec(p) => match_all!(p, DynTpVecRef, x => slice_val(x)),
    }
}
pub fn mut_val(d: &DynTpPropertyMut<'_>) -> Val {
    match d {
        DynTpPropertyMut::Primitive(p) => match_all!(p, DynTpPrimitiveMut, x => (**x).val()),
        DynTpPropertyMut::Vec(p) => match_all!(p, DynTpVecMut, x => slice_val(x)),
    }
}
fn put<T: Prim>(x: &mut T, v: &Val) {
    assert_eq!((v.ty, v.list), (T::TY, false), "view has the wrong type");
    *x = T::from_cell(&v.cells[0]);
}
fn put_slice<T: Prim>(x: &mut [T], v: &Val) {
    assert_eq!((v.ty, v.list, v.cells.len()), (T::TY, true, x.len()), "view has the wrong type or length");
    for (a, c) in x.iter_mut().zip(&v.cells) {
        *a = T::from_cell(c);
    }
}
/// Stores through a mutable view. Lists keep their length.
pub fn mut_put(d: DynTpPropertyMut<'_>, v: &Val) {
    match d {
        DynTpPropertyMut::Primitive(p) => match_all!(p, DynTpPrimitiveMut, x => put(x, v)),
        DynTpPropertyMut::Vec(p) => match_all!(p, DynTpVecMut, x => put_slice(x, v)),
    }
}
/// (address, bytes) of what a shared view shows
pub fn ref_addr(d: &DynTpPropertyRef<'_>) -> (usize, usize) {
    match d {
        DynTpPropertyRef::Primitive(p) => {
            match_all!(p, DynTpPrimitiveRef, x => (*x as *const _ as usize, std::mem::size_of_val(*x)))
        }
        DynTpPropertyRef::Vec(p) => {
            match_all!(p, DynTpVecRef, x => (x.as_ptr() as usize, std::mem::size_of_val(*x)))
        }
    }
}
pub fn mut_addr(d: &DynTpPropertyMut<'_>) -> (usize, usize) {
    match d {
        DynTpPropertyMut::Primitive(p) => {
            match_all!(p, DynTpPrimitiveMut, x => (&**x as *const _ as usize, std::mem::size_of_val(&**x)))
        }
        DynTpPropertyMut::Vec(p) => {
            match_all!(p, DynTpVecMut, x => (x.as_ptr() as usize, std::mem::size_of_val(&**x)))
        }
    }
}

pub type Frames = Vec<(Val, u64)>;
pub fn chan_frames<T: Prop>(c: &Channel<T>) -> Frames {
    c.keyframes().iter().map(|k| (k.value().val(), k.time().to_bits())).collect()
}
pub fn to_chan<T: Prop>(f: &Frames) -> Channel<T> {
    Channel::new(
        f.iter()
            .map(|(v, t)| Keyframe::new(T::from_val(v), f64::from_bits(*t)))
            .collect::<Vec<_>>()
            .into_iter(),
    )
}
pub fn to_dyn_chan(ty: usize, list: bool, f: &Frames) -> DynChannel {
    dispatch!(ty, list, T => T::dyn_chan(to_chan::<T>(f)))
}
pub fn chan_ref_frames(d: &DynChannelRef<'_>) -> (usize, bool, Frames) {
    fn f<T: Prop>(c: &Channel<T>) -> (usize, bool, Frames) {
        (T::TY, T::LIST, chan_frames(c))
    }
    match d {
        DynChannelRef::Primitive(p) => match_all!(p, DynChannelPrimitiveRef, x => f(*x)),
        DynChannelRef::Vec(p) => match_all!(p, DynChannelVecRef, x => f(*x)),
    }
}
pub fn chan_mut_frames(d: &DynChannelMut<'_>) -> (usize, bool, Frames) {
    fn f<T: Prop>(c: &Channel<T>) -> (usize, bool, Frames) {
        (T::TY, T::LIST, chan_frames(c))
    }
    match d {
        DynChannelMut::Primitive(p) => match_all!(p, DynChannelPrimitiveMut, x => f(&**x)),
        DynChannelMut::Vec(p) => match_all!(p, DynChannelVecMut, x => f(&**x)),
    }
}
pub fn chan_mut_put(d: DynChannelMut<'_>, ty: usize, list: bool, frames: &Frames) {
    fn f<T: Prop>(c: &mut Channel<T>, ty: usize, list: bool, frames: &Frames) {
        assert_eq!((ty, list), (T::TY, T::LIST), "view has the wrong type");
        *c = to_chan(frames);
    }
    match d {
        DynChannelMut::Primitive(p) => match_all!(p, DynChannelPrimitiveMut, x => f(x, ty, list, frames)),
        DynChannelMut::Vec(p) => match_all!(p, DynChannelVecMut, x => f(x, ty, list, frames)),
    }
}
pub fn dyn_chan_frames(d: &DynChannel) -> (usize, bool, Frames) {
    fn f<T: Prop>(c: &Channel<T>) -> (usize, bool, Frames) {
        (T::TY, T::LIST, chan_frames(c))
    }
    match d {
        DynChannel::Primitive(p) => match_all!(p, DynChannelPrimitive, x => f(x)),
        DynChannel::Vec(p) => match_all!(p, DynChannelVec, x => f(x)),
    }
}
pub fn ref_of(d: &DynTpProperty) -> DynTpPropertyRef<'_> {
    BBorrow::borrow(d)
}

/// Already sorted by time, no NaN: what a channel holds is then exactly this.
pub fn gen_frames(ty: usize, list: bool, r: &mut Rng) -> Frames {
    let long = LONG.with(|l| l.get());
    if long > 0 && !list {
        LONG.with(|l| l.set(0));
        let few: Vec<Val> = (0..8).map(|_| gen_val(ty, list, r)).collect();
        let f = (0..long).map(|i| (few[i % 8].clone(), (i as f64).to_bits())).collect();
        LONG.with(|l| l.set(long));
        return f;
    }
    let n = r.below(4);
    let mut t = -2.0f64;
    (0..n)
        .map(|_| {
            t += 1.0 + r.below(1000) as f64 / 8.0;
            (gen_val(ty, list, r), t.to_bits())
        })
        .collect()
}
