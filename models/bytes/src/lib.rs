//! Contract of `bytes`: immutable shared byte strings and a growable buffer
//! (the real crate's static vtables are replaced by an `Arc`).
use std::borrow::Borrow;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::{Bound, Deref, DerefMut, RangeBounds};
use std::sync::Arc;

pub struct Bytes {
    ptr: *const u8,
    len: usize,
    owner: Option<Arc<Vec<u8>>>,
}
unsafe impl Send for Bytes {}
unsafe impl Sync for Bytes {}
impl Bytes {
    pub const fn new() -> Self {
        Self::from_static(&[])
    }
    pub const fn from_static(b: &'static [u8]) -> Self {
        Bytes { ptr: b.as_ptr(), len: b.len(), owner: None }
    }
    pub fn copy_from_slice(b: &[u8]) -> Self {
        Self::from(b.to_vec())
    }
    pub const fn len(&self) -> usize {
        self.len
    }
    pub const fn is_empty(&self) -> bool {
        self.len == 0
    }
    fn s(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    pub fn slice(&self, r: impl RangeBounds<usize>) -> Self {
        let b = match r.start_bound() {
            Bound::Included(&n) => n,
            Bound::Excluded(&n) => n + 1,
            Bound::Unbounded => 0,
        };
        let e = match r.end_bound() {
            Bound::Included(&n) => n + 1,
            Bound::Excluded(&n) => n,
            Bound::Unbounded => self.len,
        };
        assert!(b <= e && e <= self.len, "range out of bounds");
        Bytes { ptr: unsafe { self.ptr.add(b) }, len: e - b, owner: self.owner.clone() }
    }
    pub fn split_to(&mut self, at: usize) -> Self {
        let r = self.slice(..at);
        *self = self.slice(at..);
        r
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        let r = self.slice(at..);
        *self = self.slice(..at);
        r
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len {
            self.len = n
        }
    }
    pub fn clear(&mut self) {
        self.len = 0
    }
}
impl Clone for Bytes {
    fn clone(&self) -> Self {
        Bytes { ptr: self.ptr, len: self.len, owner: self.owner.clone() }
    }
}
impl From<Vec<u8>> for Bytes {
    fn from(v: Vec<u8>) -> Self {
        let a = Arc::new(v);
        Bytes { ptr: a.as_ptr(), len: a.len(), owner: Some(a) }
    }
}
impl From<String> for Bytes {
    fn from(s: String) -> Self {
        s.into_bytes().into()
    }
}
impl From<Box<[u8]>> for Bytes {
    fn from(s: Box<[u8]>) -> Self {
        s.into_vec().into()
    }
}
impl From<&'static [u8]> for Bytes {
    fn from(s: &'static [u8]) -> Self {
        Bytes::from_static(s)
    }
}
impl From<&'static str> for Bytes {
    fn from(s: &'static str) -> Self {
        Bytes::from_static(s.as_bytes())
    }
}
impl From<Bytes> for Vec<u8> {
    fn from(b: Bytes) -> Self {
        b.s().to_vec()
    }
}
impl From<BytesMut> for Bytes {
    fn from(b: BytesMut) -> Self {
        b.freeze()
    }
}
impl FromIterator<u8> for Bytes {
    fn from_iter<I: IntoIterator<Item = u8>>(i: I) -> Self {
        Vec::from_iter(i).into()
    }
}
impl Default for Bytes {
    fn default() -> Self {
        Self::new()
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        self.s()
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        self.s()
    }
}
impl Borrow<[u8]> for Bytes {
    fn borrow(&self) -> &[u8] {
        self.s()
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Self) -> bool {
        self.s() == o.s()
    }
}
impl Eq for Bytes {}
impl PartialEq<[u8]> for Bytes {
    fn eq(&self, o: &[u8]) -> bool {
        self.s() == o
    }
}
impl<'a, T: ?Sized> PartialEq<&'a T> for Bytes
where
    Bytes: PartialEq<T>,
{
    fn eq(&self, o: &&'a T) -> bool {
        *self == **o
    }
}
impl PartialEq<Vec<u8>> for Bytes {
    fn eq(&self, o: &Vec<u8>) -> bool {
        self.s() == &o[..]
    }
}
impl PartialOrd for Bytes {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Bytes {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.s().cmp(o.s())
    }
}
impl Hash for Bytes {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.s().hash(h)
    }
}
impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Bytes")
    }
}
impl<'a> IntoIterator for &'a Bytes {
    type Item = &'a u8;
    type IntoIter = std::slice::Iter<'a, u8>;
    fn into_iter(self) -> Self::IntoIter {
        self.s().iter()
    }
}

#[derive(Default, Clone, PartialEq, Eq)]
pub struct BytesMut {
    v: Vec<u8>,
}
impl BytesMut {
    pub fn new() -> Self {
        BytesMut { v: Vec::new() }
    }
    pub fn with_capacity(n: usize) -> Self {
        BytesMut { v: Vec::with_capacity(n) }
    }
    pub fn zeroed(n: usize) -> Self {
        BytesMut { v: vec![0; n] }
    }
    pub fn freeze(self) -> Bytes {
        self.v.into()
    }
    pub fn extend_from_slice(&mut self, b: &[u8]) {
        self.v.extend_from_slice(b)
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn capacity(&self) -> usize {
        self.v.capacity()
    }
    pub fn reserve(&mut self, n: usize) {
        self.v.reserve(n)
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn truncate(&mut self, n: usize) {
        self.v.truncate(n)
    }
    pub fn split(&mut self) -> BytesMut {
        std::mem::take(self)
    }
}
impl Deref for BytesMut {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.v
    }
}
impl DerefMut for BytesMut {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.v
    }
}
impl AsRef<[u8]> for BytesMut {
    fn as_ref(&self) -> &[u8] {
        &self.v
    }
}
impl From<&[u8]> for BytesMut {
    fn from(b: &[u8]) -> Self {
        BytesMut { v: b.to_vec() }
    }
}
impl Extend<u8> for BytesMut {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, i: I) {
        self.v.extend(i)
    }
}
impl fmt::Debug for BytesMut {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("BytesMut")
    }
}

pub trait BufMut {
    fn put_slice(&mut self, b: &[u8]);
    fn put_u8(&mut self, b: u8) {
        self.put_slice(&[b])
    }
    fn put_u32(&mut self, n: u32) {
        self.put_slice(&n.to_be_bytes())
    }
    fn put_u64(&mut self, n: u64) {
        self.put_slice(&n.to_be_bytes())
    }
    fn put<B: AsRef<[u8]>>(&mut self, b: B)
    where
        Self: Sized,
    {
        self.put_slice(b.as_ref())
    }
    fn writer(self) -> buf::Writer<Self>
    where
        Self: Sized,
    {
        buf::Writer { b: self }
    }
}
impl BufMut for BytesMut {
    fn put_slice(&mut self, b: &[u8]) {
        self.v.extend_from_slice(b)
    }
}
impl BufMut for Vec<u8> {
    fn put_slice(&mut self, b: &[u8]) {
        self.extend_from_slice(b)
    }
}
impl<T: BufMut + ?Sized> BufMut for &mut T {
    fn put_slice(&mut self, b: &[u8]) {
        (**self).put_slice(b)
    }
}
pub trait Buf {
    fn remaining(&self) -> usize;
    fn chunk(&self) -> &[u8];
    fn advance(&mut self, n: usize);
    fn has_remaining(&self) -> bool {
        self.remaining() > 0
    }
    fn get_u8(&mut self) -> u8 {
        let r = self.chunk()[0];
        self.advance(1);
        r
    }
    fn reader(self) -> buf::Reader<Self>
    where
        Self: Sized,
    {
        buf::Reader { b: self }
    }
}
impl Buf for Bytes {
    fn remaining(&self) -> usize {
        self.len
    }
    fn chunk(&self) -> &[u8] {
        self.s()
    }
    fn advance(&mut self, n: usize) {
        *self = self.slice(n..)
    }
}
impl Buf for &[u8] {
    fn remaining(&self) -> usize {
        self.len()
    }
    fn chunk(&self) -> &[u8] {
        self
    }
    fn advance(&mut self, n: usize) {
        *self = &self[n..]
    }
}
pub mod buf {
    pub use super::{Buf, BufMut};
    #[derive(Debug)]
    pub struct Writer<B> {
        pub(crate) b: B,
    }
    impl<B> Writer<B> {
        pub fn into_inner(self) -> B {
            self.b
        }
        pub fn get_ref(&self) -> &B {
            &self.b
        }
        pub fn get_mut(&mut self) -> &mut B {
            &mut self.b
        }
    }
    impl<B: BufMut> std::io::Write for Writer<B> {
        fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
            self.b.put_slice(s);
            Ok(s.len())
        }
        fn write_all(&mut self, s: &[u8]) -> std::io::Result<()> {
            self.b.put_slice(s);
            Ok(())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    #[derive(Debug)]
    pub struct Reader<B> {
        pub(crate) b: B,
    }
    impl<B> Reader<B> {
        pub fn into_inner(self) -> B {
            self.b
        }
    }
    impl<B: Buf> std::io::Read for Reader<B> {
        fn read(&mut self, d: &mut [u8]) -> std::io::Result<usize> {
            let n = d.len().min(self.b.remaining());
            d[..n].copy_from_slice(&self.b.chunk()[..n]);
            self.b.advance(n);
            Ok(n)
        }
    }
}

#[cfg(feature = "serde")]
mod ser {
    use super::*;
    impl serde::Serialize for Bytes {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_bytes(self)
        }
    }
    struct V;
    impl<'de> serde::de::Visitor<'de> for V {
        type Value = Bytes;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("byte array")
        }
        fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Bytes, A::Error> {
            let mut v = Vec::new();
            while let Some(x) = a.next_element()? {
                v.push(x);
            }
            Ok(v.into())
        }
        fn visit_bytes<E: serde::de::Error>(self, b: &[u8]) -> Result<Bytes, E> {
            Ok(Bytes::copy_from_slice(b))
        }
        fn visit_byte_buf<E: serde::de::Error>(self, b: Vec<u8>) -> Result<Bytes, E> {
            Ok(b.into())
        }
        fn visit_str<E: serde::de::Error>(self, b: &str) -> Result<Bytes, E> {
            Ok(Bytes::copy_from_slice(b.as_bytes()))
        }
        fn visit_string<E: serde::de::Error>(self, b: String) -> Result<Bytes, E> {
            Ok(b.into())
        }
    }
    impl<'de> serde::Deserialize<'de> for Bytes {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Bytes, D::Error> {
            d.deserialize_byte_buf(V)
        }
    }
}
