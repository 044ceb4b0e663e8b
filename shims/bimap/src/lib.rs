//! The part of `bimap::BiHashMap` that client/serialize uses.
#![forbid(unsafe_code)]
use std::collections::HashMap;
use std::hash::Hash;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Overwritten<L, R> {
    Neither,
    Left(L, R),
    Right(L, R),
    Pair(L, R),
    Both((L, R), (L, R)),
}
impl<L, R> Overwritten<L, R> {
    pub fn did_overwrite(&self) -> bool {
        !matches!(self, Overwritten::Neither)
    }
}

#[derive(Debug, Clone)]
pub struct BiHashMap<L: Eq + Hash, R: Eq + Hash> {
    l: HashMap<L, R>,
    r: HashMap<R, L>,
}
impl<L: Eq + Hash, R: Eq + Hash> Default for BiHashMap<L, R> {
    fn default() -> Self {
        Self { l: HashMap::new(), r: HashMap::new() }
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> BiHashMap<L, R> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.l.len()
    }
    pub fn is_empty(&self) -> bool {
        self.l.is_empty()
    }
    pub fn contains_left(&self, l: &L) -> bool {
        self.l.contains_key(l)
    }
    pub fn contains_right(&self, r: &R) -> bool {
        self.r.contains_key(r)
    }
    pub fn get_by_left(&self, l: &L) -> Option<&R> {
        self.l.get(l)
    }
    pub fn get_by_right(&self, r: &R) -> Option<&L> {
        self.r.get(r)
    }
    pub fn remove_by_left(&mut self, l: &L) -> Option<(L, R)> {
        let (l, r) = self.l.remove_entry(l)?;
        self.r.remove(&r);
        Some((l, r))
    }
    pub fn remove_by_right(&mut self, r: &R) -> Option<(L, R)> {
        let (r, l) = self.r.remove_entry(r)?;
        self.l.remove(&l);
        Some((l, r))
    }
    pub fn insert(&mut self, l: L, r: R) -> Overwritten<L, R> {
        let out = match (self.remove_by_left(&l), self.remove_by_right(&r)) {
            (None, None) => Overwritten::Neither,
            (None, Some((l, r))) => Overwritten::Right(l, r),
            (Some((a, b)), None) if b == r => Overwritten::Pair(a, b),
            (Some((a, b)), None) => Overwritten::Left(a, b),
            (Some(p), Some(q)) => Overwritten::Both(p, q),
        };
        self.l.insert(l.clone(), r.clone());
        self.r.insert(r, l);
        out
    }
    pub fn insert_no_overwrite(&mut self, l: L, r: R) -> Result<(), (L, R)> {
        if self.contains_left(&l) || self.contains_right(&r) {
            return Err((l, r));
        }
        self.l.insert(l.clone(), r.clone());
        self.r.insert(r, l);
        Ok(())
    }
    pub fn iter(&self) -> std::collections::hash_map::Iter<'_, L, R> {
        self.l.iter()
    }
    pub fn left_values(&self) -> impl Iterator<Item = &L> {
        self.l.keys()
    }
    pub fn right_values(&self) -> impl Iterator<Item = &R> {
        self.l.values()
    }
    pub fn clear(&mut self) {
        self.l.clear();
        self.r.clear();
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> Extend<(L, R)> for BiHashMap<L, R> {
    fn extend<I: IntoIterator<Item = (L, R)>>(&mut self, it: I) {
        for (l, r) in it {
            self.insert(l, r);
        }
    }
}
impl<L: Eq + Hash + Clone, R: Eq + Hash + Clone> FromIterator<(L, R)> for BiHashMap<L, R> {
    fn from_iter<I: IntoIterator<Item = (L, R)>>(it: I) -> Self {
        let mut m = Self { l: HashMap::new(), r: HashMap::new() };
        m.extend(it);
        m
    }
}
impl<L: Eq + Hash, R: Eq + Hash> IntoIterator for BiHashMap<L, R> {
    type Item = (L, R);
    type IntoIter = std::collections::hash_map::IntoIter<L, R>;
    fn into_iter(self) -> Self::IntoIter {
        self.l.into_iter()
    }
}
impl<'a, L: Eq + Hash, R: Eq + Hash> IntoIterator for &'a BiHashMap<L, R> {
    type Item = (&'a L, &'a R);
    type IntoIter = std::collections::hash_map::Iter<'a, L, R>;
    fn into_iter(self) -> Self::IntoIter {
        self.l.iter()
    }
}
