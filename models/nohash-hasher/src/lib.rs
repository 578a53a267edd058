//! `nohash_hasher` with a hash function that maps every key to the same value.  The maps are the
//! real `std` ones; lookups then compare keys only, so that a symbolic key does not turn into a
//! symbolic table index.  (Nothing a map promises depends on the hash function.)
use std::hash::{BuildHasherDefault, Hasher};
use std::marker::PhantomData;

pub type IntMap<K, V> = std::collections::HashMap<K, V, BuildNoHashHasher<K>>;
pub type IntSet<T> = std::collections::HashSet<T, BuildNoHashHasher<T>>;
pub type BuildNoHashHasher<T> = BuildHasherDefault<NoHashHasher<T>>;

#[derive(Debug)]
pub struct NoHashHasher<T>(PhantomData<T>);
impl<T> Default for NoHashHasher<T> {
    fn default() -> Self {
        NoHashHasher(PhantomData)
    }
}
impl<T> Clone for NoHashHasher<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for NoHashHasher<T> {}

pub trait IsEnabled {}
impl IsEnabled for u8 {}
impl IsEnabled for u16 {}
impl IsEnabled for u32 {}
impl IsEnabled for u64 {}
impl IsEnabled for usize {}
impl IsEnabled for i8 {}
impl IsEnabled for i16 {}
impl IsEnabled for i32 {}
impl IsEnabled for i64 {}
impl IsEnabled for isize {}

impl<T: IsEnabled> Hasher for NoHashHasher<T> {
    fn write(&mut self, _: &[u8]) {
        panic!("Invalid use of NoHashHasher")
    }
    fn write_u8(&mut self, _: u8) {}
    fn write_u16(&mut self, _: u16) {}
    fn write_u32(&mut self, _: u32) {}
    fn write_u64(&mut self, _: u64) {}
    fn write_usize(&mut self, _: usize) {}
    fn write_i8(&mut self, _: i8) {}
    fn write_i16(&mut self, _: i16) {}
    fn write_i32(&mut self, _: i32) {}
    fn write_i64(&mut self, _: i64) {}
    fn write_isize(&mut self, _: isize) {}
    fn finish(&self) -> u64 {
        0
    }
}
