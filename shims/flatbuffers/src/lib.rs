//! The part of the `flatbuffers` crate that code generated by flatc for plain
//! tables, vectors, strings, enums and unions needs, and its users see. The
//! wire format and the rules of the verifier are those of the original.
#![forbid(unsafe_code)]
use std::marker::PhantomData;

pub type UOffsetT = u32;
pub type SOffsetT = i32;
pub type VOffsetT = u16;

// ---- reading

pub trait Follow<'a> {
    type Inner;
    fn follow(buf: &'a [u8], loc: usize) -> Self::Inner;
}

fn bytes<const N: usize>(buf: &[u8], loc: usize) -> [u8; N] {
    buf[loc..loc + N].try_into().unwrap()
}

macro_rules! scalars {
    ($($t:ty),*) => {$(
        impl<'a> Follow<'a> for $t {
            type Inner = $t;
            fn follow(buf: &'a [u8], loc: usize) -> $t { <$t>::from_le_bytes(bytes(buf, loc)) }
        }
        impl Verifiable for $t {
            fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> { v.in_buffer(pos, std::mem::size_of::<$t>(), std::mem::align_of::<$t>()) }
        }
        impl Push for $t {
            type Output = $t;
            const SIZE: usize = std::mem::size_of::<$t>();
            fn push(&self, b: &mut FlatBufferBuilder<'_>) { b.prepend(&self.to_le_bytes()) }
        }
    )*};
}
scalars!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);
impl<'a> Follow<'a> for bool {
    type Inner = bool;
    fn follow(buf: &'a [u8], loc: usize) -> bool {
        buf[loc] != 0
    }
}
impl Verifiable for bool {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
        v.in_buffer(pos, 1, 1)
    }
}
impl Push for bool {
    type Output = bool;
    const SIZE: usize = 1;
    fn push(&self, b: &mut FlatBufferBuilder<'_>) {
        b.prepend(&[*self as u8])
    }
}
impl<'a> Follow<'a> for &'a str {
    type Inner = &'a str;
    fn follow(buf: &'a [u8], loc: usize) -> &'a str {
        let n = u32::follow(buf, loc) as usize;
        std::str::from_utf8(&buf[loc + 4..loc + 4 + n]).expect("verified text")
    }
}

pub struct ForwardsUOffset<T>(PhantomData<T>);
impl<'a, T: Follow<'a>> Follow<'a> for ForwardsUOffset<T> {
    type Inner = T::Inner;
    fn follow(buf: &'a [u8], loc: usize) -> T::Inner {
        T::follow(buf, loc + u32::follow(buf, loc) as usize)
    }
}

pub struct Vector<'a, T>(&'a [u8], usize, PhantomData<T>);
impl<'a, T> Clone for Vector<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T> Copy for Vector<'a, T> {}
/// How many bytes an element takes.
pub trait Element {
    const BYTES: usize;
}
macro_rules! elements {
    ($($t:ty),*) => {$(impl Element for $t { const BYTES: usize = std::mem::size_of::<$t>(); })*};
}
elements!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool);
impl<T> Element for ForwardsUOffset<T> {
    const BYTES: usize = 4;
}
impl<'a, T: Follow<'a> + 'a> Follow<'a> for Vector<'a, T> {
    type Inner = Vector<'a, T>;
    fn follow(buf: &'a [u8], loc: usize) -> Self {
        Vector(buf, loc, PhantomData)
    }
}
impl<'a, T> Vector<'a, T> {
    pub fn len(&self) -> usize {
        u32::follow(self.0, self.1) as usize
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl<'a, T: Follow<'a> + Element + 'a> Vector<'a, T> {
    pub fn get(&self, idx: usize) -> T::Inner {
        assert!(idx < self.len(), "index {idx} out of a vector of {}", self.len());
        T::follow(self.0, self.1 + 4 + idx * T::BYTES)
    }
    pub fn iter(&self) -> VectorIter<'a, T> {
        VectorIter { v: *self, from: 0, to: self.len() }
    }
}
impl<'a, T: Follow<'a> + Element + 'a> IntoIterator for Vector<'a, T> {
    type Item = T::Inner;
    type IntoIter = VectorIter<'a, T>;
    fn into_iter(self) -> VectorIter<'a, T> {
        self.iter()
    }
}
impl<'a, T: Follow<'a> + Element + 'a> IntoIterator for &Vector<'a, T> {
    type Item = T::Inner;
    type IntoIter = VectorIter<'a, T>;
    fn into_iter(self) -> VectorIter<'a, T> {
        self.iter()
    }
}
impl<'a, T: Follow<'a> + Element + 'a> std::fmt::Debug for Vector<'a, T>
where
    T::Inner: std::fmt::Debug,
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
pub struct VectorIter<'a, T> {
    v: Vector<'a, T>,
    from: usize,
    to: usize,
}
impl<'a, T> Clone for VectorIter<'a, T> {
    fn clone(&self) -> Self {
        Self { v: self.v, from: self.from, to: self.to }
    }
}
impl<'a, T: Follow<'a> + Element + 'a> Iterator for VectorIter<'a, T> {
    type Item = T::Inner;
    fn next(&mut self) -> Option<T::Inner> {
        (self.from < self.to).then(|| {
            self.from += 1;
            self.v.get(self.from - 1)
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.to - self.from, Some(self.to - self.from))
    }
}
impl<'a, T: Follow<'a> + Element + 'a> DoubleEndedIterator for VectorIter<'a, T> {
    fn next_back(&mut self) -> Option<T::Inner> {
        (self.from < self.to).then(|| {
            self.to -= 1;
            self.v.get(self.to)
        })
    }
}
impl<'a, T: Follow<'a> + Element + 'a> ExactSizeIterator for VectorIter<'a, T> {}

#[derive(Clone, Copy, PartialEq)]
pub struct Table<'a> {
    pub buf: &'a [u8],
    pub loc: usize,
}
impl std::fmt::Debug for Table<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Table@{}", self.loc)
    }
}
impl<'a> Table<'a> {
    pub fn new(buf: &'a [u8], loc: usize) -> Self {
        Self { buf, loc }
    }
    fn field(&self, slot: VOffsetT) -> Option<usize> {
        let vt = (self.loc as i64 - i32::follow(self.buf, self.loc) as i64) as usize;
        let len = u16::follow(self.buf, vt);
        if slot >= len {
            return None;
        }
        match u16::follow(self.buf, vt + slot as usize) {
            0 => None,
            o => Some(self.loc + o as usize),
        }
    }
    pub fn get<T: Follow<'a> + 'a>(&self, slot: VOffsetT, default: Option<T::Inner>) -> Option<T::Inner> {
        match self.field(slot) {
            Some(p) => Some(T::follow(self.buf, p)),
            None => default,
        }
    }
}
impl<'a> Follow<'a> for Table<'a> {
    type Inner = Table<'a>;
    fn follow(buf: &'a [u8], loc: usize) -> Self {
        Table { buf, loc }
    }
}

pub fn root<'a, T: Follow<'a> + Verifiable + 'a>(data: &'a [u8]) -> Result<T::Inner, InvalidFlatbuffer> {
    root_with_opts::<T>(&VerifierOptions::default(), data)
}
pub fn root_with_opts<'o, 'a, T: Follow<'a> + Verifiable + 'a>(opts: &'o VerifierOptions, data: &'a [u8]) -> Result<T::Inner, InvalidFlatbuffer> {
    let mut v = Verifier::new(opts, data);
    <ForwardsUOffset<T>>::run_verifier(&mut v, 0)?;
    Ok(<ForwardsUOffset<T>>::follow(data, 0))
}
pub fn buffer_has_identifier(data: &[u8], ident: &str, size_prefixed: bool) -> bool {
    let at = if size_prefixed { 8 } else { 4 };
    data.get(at..at + 4) == Some(ident.as_bytes())
}

// ---- verification

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum InvalidFlatbuffer {
    MissingRequiredField { required: &'static str },
    InconsistentUnion { field: &'static str, field_type: &'static str },
    Utf8Error,
    MissingNullTerminator,
    Unaligned { position: usize },
    RangeOutOfBounds { start: usize, end: usize },
    SignedOffsetOutOfBounds { soffset: SOffsetT, position: usize },
    TooManyTables,
    ApparentSizeTooLarge,
    DepthLimitReached,
}
impl std::fmt::Display for InvalidFlatbuffer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for InvalidFlatbuffer {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VerifierOptions {
    pub max_depth: usize,
    pub max_tables: usize,
    pub max_apparent_size: usize,
    pub ignore_missing_null_terminator: bool,
}
impl Default for VerifierOptions {
    fn default() -> Self {
        Self { max_depth: 64, max_tables: 1_000_000, max_apparent_size: 1 << 31, ignore_missing_null_terminator: false }
    }
}

pub trait Verifiable {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer>;
}

pub struct Verifier<'o, 'b> {
    buf: &'b [u8],
    opts: &'o VerifierOptions,
    depth: usize,
    tables: usize,
    apparent: usize,
}
impl<'o, 'b> Verifier<'o, 'b> {
    pub fn new(opts: &'o VerifierOptions, buf: &'b [u8]) -> Self {
        Self { buf, opts, depth: 0, tables: 0, apparent: 0 }
    }
    fn aligned(&self, pos: usize, align: usize) -> Result<(), InvalidFlatbuffer> {
        if pos % align == 0 {
            Ok(())
        } else {
            Err(InvalidFlatbuffer::Unaligned { position: pos })
        }
    }
    fn range(&mut self, pos: usize, size: usize) -> Result<(), InvalidFlatbuffer> {
        let end = pos.saturating_add(size);
        if end > self.buf.len() {
            return Err(InvalidFlatbuffer::RangeOutOfBounds { start: pos, end });
        }
        self.apparent += size;
        if self.apparent > self.opts.max_apparent_size {
            return Err(InvalidFlatbuffer::ApparentSizeTooLarge);
        }
        Ok(())
    }
    pub fn in_buffer(&mut self, pos: usize, size: usize, align: usize) -> Result<(), InvalidFlatbuffer> {
        self.aligned(pos, align)?;
        self.range(pos, size)
    }
    fn uoffset(&mut self, pos: usize) -> Result<u32, InvalidFlatbuffer> {
        self.in_buffer(pos, 4, 4)?;
        Ok(u32::follow(self.buf, pos))
    }
    fn soffset(&mut self, pos: usize) -> Result<usize, InvalidFlatbuffer> {
        self.in_buffer(pos, 4, 4)?;
        let o = i32::follow(self.buf, pos);
        let t = pos as i64 - o as i64;
        if t < 0 || t >= self.buf.len() as i64 {
            return Err(InvalidFlatbuffer::SignedOffsetOutOfBounds { soffset: o, position: pos });
        }
        Ok(t as usize)
    }
    pub fn visit_table(&mut self, pos: usize) -> Result<TableVerifier<'_, 'o, 'b>, InvalidFlatbuffer> {
        let vt = self.soffset(pos)?;
        self.in_buffer(vt, 2, 2)?;
        let len = u16::follow(self.buf, vt) as usize;
        self.aligned(vt.saturating_add(len), 2)?;
        self.range(vt, len)?;
        self.tables += 1;
        if self.tables > self.opts.max_tables {
            return Err(InvalidFlatbuffer::TooManyTables);
        }
        self.depth += 1;
        if self.depth > self.opts.max_depth {
            return Err(InvalidFlatbuffer::DepthLimitReached);
        }
        Ok(TableVerifier { pos, vt, len, v: self })
    }
    fn vector(&mut self, pos: usize, size: usize) -> Result<std::ops::Range<usize>, InvalidFlatbuffer> {
        let n = self.uoffset(pos)? as usize;
        let start = pos.saturating_add(4);
        self.aligned(start, size.min(8))?;
        let bytes = n.saturating_mul(size);
        self.range(start, bytes)?;
        Ok(start..start + bytes)
    }
}
pub struct TableVerifier<'v, 'o, 'b> {
    pos: usize,
    vt: usize,
    len: usize,
    v: &'v mut Verifier<'o, 'b>,
}
impl<'v, 'o, 'b> TableVerifier<'v, 'o, 'b> {
    fn deref(&mut self, field: VOffsetT) -> Result<Option<usize>, InvalidFlatbuffer> {
        let field = field as usize;
        if field >= self.len {
            return Ok(None);
        }
        let at = self.vt.saturating_add(field);
        self.v.in_buffer(at, 2, 2)?;
        Ok(match u16::follow(self.v.buf, at) {
            0 => None,
            o => Some(self.pos.saturating_add(o as usize)),
        })
    }
    pub fn visit_field<T: Verifiable>(mut self, name: &'static str, field: VOffsetT, required: bool) -> Result<Self, InvalidFlatbuffer> {
        match self.deref(field)? {
            Some(p) => T::run_verifier(self.v, p)?,
            None if required => return Err(InvalidFlatbuffer::MissingRequiredField { required: name }),
            None => {}
        }
        Ok(self)
    }
    pub fn visit_union<K, F>(mut self, key_name: &'static str, key: VOffsetT, name: &'static str, val: VOffsetT, required: bool, f: F) -> Result<Self, InvalidFlatbuffer>
    where
        K: Verifiable + Follow<'b>,
        F: FnOnce(<K as Follow<'b>>::Inner, &mut Verifier, usize) -> Result<(), InvalidFlatbuffer>,
    {
        let (v, k) = (self.deref(val)?, self.deref(key)?);
        match (k, v) {
            (None, None) if required => return Err(InvalidFlatbuffer::MissingRequiredField { required: name }),
            (None, None) => {}
            (Some(k), Some(v)) => {
                K::run_verifier(self.v, k)?;
                let d = K::follow(self.v.buf, k);
                f(d, self.v, v)?;
            }
            _ => return Err(InvalidFlatbuffer::InconsistentUnion { field: key_name, field_type: name }),
        }
        Ok(self)
    }
    pub fn finish(self) {
        self.v.depth -= 1;
    }
}
impl<T: Verifiable> Verifiable for ForwardsUOffset<T> {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
        let o = v.uoffset(pos)? as usize;
        T::run_verifier(v, pos.saturating_add(o))
    }
}
impl<'a, T: Verifiable + Element> Verifiable for Vector<'a, T> {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
        for p in v.vector(pos, T::BYTES)?.step_by(T::BYTES) {
            // (elements of scalars are in range already)
            T::run_verifier(v, p)?;
        }
        Ok(())
    }
}
impl<'a> Verifiable for &'a str {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
        let r = v.vector(pos, 1)?;
        let end = r.end;
        std::str::from_utf8(&v.buf[r]).map_err(|_| InvalidFlatbuffer::Utf8Error)?;
        if v.buf.get(end) != Some(&0) && !v.opts.ignore_missing_null_terminator {
            return Err(InvalidFlatbuffer::MissingNullTerminator);
        }
        Ok(())
    }
}

// ---- building

pub struct WIPOffset<T>(UOffsetT, PhantomData<T>);
impl<T> Clone for WIPOffset<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for WIPOffset<T> {}
impl<T> PartialEq for WIPOffset<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for WIPOffset<T> {}
impl<T> std::fmt::Debug for WIPOffset<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "WIPOffset({})", self.0)
    }
}
pub struct UnionWIPOffset;
pub struct TableFinishedWIPOffset;
pub struct TableUnfinishedWIPOffset;
impl<T> WIPOffset<T> {
    pub fn new(o: UOffsetT) -> Self {
        Self(o, PhantomData)
    }
    pub fn value(self) -> UOffsetT {
        self.0
    }
    pub fn as_union_value(&self) -> WIPOffset<UnionWIPOffset> {
        WIPOffset::new(self.0)
    }
}

pub trait Push {
    type Output;
    const SIZE: usize;
    fn push(&self, b: &mut FlatBufferBuilder<'_>);
}
impl<T> Push for WIPOffset<T> {
    type Output = ForwardsUOffset<T>;
    const SIZE: usize = 4;
    fn push(&self, b: &mut FlatBufferBuilder<'_>) {
        let here = b.rev.len() as u32 + 4;
        // what the original computes, too, when given a made-up offset
        b.prepend(&here.wrapping_sub(self.0).to_le_bytes())
    }
}

/// Grows towards lower addresses, like the original; the bytes are kept in
/// reverse until they are finished.
#[derive(Clone, Debug)]
pub struct FlatBufferBuilder<'fbb> {
    rev: Vec<u8>,
    fields: Vec<(VOffsetT, u32)>,
    vtables: Vec<u32>,
    nested: bool,
    finished: bool,
    min_align: usize,
    done: Vec<u8>,
    force_defaults: bool,
    phantom: PhantomData<&'fbb ()>,
}
impl<'fbb> Default for FlatBufferBuilder<'fbb> {
    fn default() -> Self {
        Self { rev: vec![], fields: vec![], vtables: vec![], nested: false, finished: false, min_align: 1, done: vec![], force_defaults: false, phantom: PhantomData }
    }
}
impl<'fbb> FlatBufferBuilder<'fbb> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(n: usize) -> Self {
        let mut b = Self::default();
        b.rev.reserve(n);
        b
    }
    pub fn reset(&mut self) {
        *self = Self { force_defaults: self.force_defaults, ..Self::default() };
    }
    pub fn force_defaults(&mut self, f: bool) {
        self.force_defaults = f;
    }
    fn prepend(&mut self, bytes: &[u8]) {
        self.rev.extend(bytes.iter().rev());
    }
    /// Pads so that `align` holds once `len` more bytes have been put in front.
    fn align(&mut self, len: usize, align: usize) {
        self.min_align = self.min_align.max(align);
        while (self.rev.len() + len) % align != 0 {
            self.rev.push(0);
        }
    }
    pub fn push<P: Push>(&mut self, x: P) -> WIPOffset<P::Output> {
        self.align(P::SIZE, P::SIZE);
        x.push(self);
        WIPOffset::new(self.rev.len() as u32)
    }
    pub fn push_slot<X: Push + PartialEq>(&mut self, slot: VOffsetT, x: X, default: X) {
        assert!(self.nested, "must be in a table");
        if x != default || self.force_defaults {
            self.push_slot_always(slot, x);
        }
    }
    pub fn push_slot_always<X: Push>(&mut self, slot: VOffsetT, x: X) {
        assert!(self.nested, "must be in a table");
        let o = self.push(x).value();
        self.fields.push((slot, o));
    }
    pub fn start_table(&mut self) -> WIPOffset<TableUnfinishedWIPOffset> {
        assert!(!self.nested, "tables cannot be nested");
        self.nested = true;
        self.fields.clear();
        WIPOffset::new(self.rev.len() as u32)
    }
    pub fn end_table(&mut self, start: WIPOffset<TableUnfinishedWIPOffset>) -> WIPOffset<TableFinishedWIPOffset> {
        assert!(self.nested, "must be in a table");
        self.align(4, 4);
        self.prepend(&[0; 4]);
        let table = self.rev.len() as u32;
        let slots = self.fields.iter().map(|f| f.0).max().map_or(4, |s| s + 2);
        let mut vt = vec![0u8; slots as usize];
        vt[0..2].copy_from_slice(&slots.to_le_bytes());
        vt[2..4].copy_from_slice(&((table - start.value()) as u16).to_le_bytes());
        for (slot, o) in &self.fields {
            let s = *slot as usize;
            vt[s..s + 2].copy_from_slice(&((table - o) as u16).to_le_bytes());
        }
        let known = self.vtables.iter().copied().find(|o| {
            let e = *o as usize;
            e >= vt.len() && self.rev[e - vt.len()..e].iter().rev().eq(vt.iter())
        });
        let at = match known {
            Some(o) => o,
            None => {
                self.align(vt.len(), 2);
                self.prepend(&vt);
                let o = self.rev.len() as u32;
                self.vtables.push(o);
                o
            }
        };
        let so = (at as i64 - table as i64) as i32;
        let t = table as usize;
        for (i, b) in so.to_le_bytes().iter().enumerate() {
            self.rev[t - 1 - i] = *b;
        }
        self.nested = false;
        self.fields.clear();
        WIPOffset::new(table)
    }
    pub fn create_string<'a: 'b, 'b>(&'a mut self, s: &'b str) -> WIPOffset<&'fbb str> {
        assert!(!self.nested, "strings cannot be made within a table");
        self.align(s.len() + 1, 4);
        self.prepend(&[0]);
        self.prepend(s.as_bytes());
        self.prepend(&(s.len() as u32).to_le_bytes());
        WIPOffset::new(self.rev.len() as u32)
    }
    pub fn create_vector<'a: 'b, 'b, T: Push + Copy + 'b>(&'a mut self, items: &'b [T]) -> WIPOffset<Vector<'fbb, T::Output>> {
        self.create_vector_from_iter(items.iter().copied())
    }
    pub fn create_vector_from_iter<T: Push + Copy>(&mut self, items: impl ExactSizeIterator<Item = T> + DoubleEndedIterator) -> WIPOffset<Vector<'fbb, T::Output>> {
        assert!(!self.nested, "vectors cannot be made within a table");
        let n = items.len();
        self.align(n * T::SIZE, 4.max(T::SIZE));
        let before = self.rev.len();
        for x in items.rev() {
            x.push(self);
        }
        assert_eq!(self.rev.len(), before + n * T::SIZE);
        self.prepend(&(n as u32).to_le_bytes());
        WIPOffset::new(self.rev.len() as u32)
    }
    pub fn finish<T>(&mut self, root: WIPOffset<T>, ident: Option<&str>) {
        assert!(!self.nested && !self.finished, "a buffer is finished once");
        let extra = 4 + ident.map_or(0, |i| i.len());
        let align = self.min_align.max(4);
        self.align(extra, align);
        if let Some(i) = ident {
            assert_eq!(i.len(), 4, "an identifier has four bytes");
            self.prepend(i.as_bytes());
        }
        root.push(self);
        self.finished = true;
        self.done = self.rev.iter().rev().copied().collect();
    }
    pub fn finished_data(&self) -> &[u8] {
        assert!(self.finished, "the buffer is not finished");
        &self.done
    }
}
impl<'fbb> FlatBufferBuilder<'fbb> {
    pub fn unfinished_data(&self) -> Vec<u8> {
        self.rev.iter().rev().copied().collect()
    }
    pub fn mut_finished_buffer(&mut self) -> (&mut [u8], usize) {
        assert!(self.finished, "the buffer is not finished");
        (&mut self.done, 0)
    }
    pub fn finish_minimal<T>(&mut self, root: WIPOffset<T>) {
        self.finish(root, None)
    }
    pub fn create_shared_string<'a: 'b, 'b>(&'a mut self, s: &'b str) -> WIPOffset<&'fbb str> {
        self.create_string(s)
    }
    pub fn collapse(self) -> (Vec<u8>, usize) {
        assert!(self.finished, "the buffer is not finished");
        (self.done, 0)
    }
}
