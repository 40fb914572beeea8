//! Shared by the proof build (Kani) and the native build of the harnesses.

/// A postcondition.
#[macro_export]
macro_rules! post {
    ($c:expr, $m:literal) => {
        assert!($c, concat!("[P] ", $m))
    };
}
pub use std::mem::{forget, ManuallyDrop};

use paladin::acker::Acker;
use paladin::queue::Publisher;
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::task::{Context, Poll};

/// Single-threaded harness state seen by code that demands `Send + Sync`.
pub struct Shared<T>(pub T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

pub fn err() -> anyhow::Error {
    anyhow::Error::from(std::fmt::Error)
}
pub fn res(ok: bool) -> anyhow::Result<()> {
    if ok {
        Ok(())
    } else {
        Err(err())
    }
}

/// `unwrap`/`expect` on an `Err`, without the message.
#[cfg(kani)]
pub fn unwrap_failed(_: &str, _: &dyn std::fmt::Debug) -> ! {
    panic!("called `Result::unwrap()` on an `Err` value")
}

/// Contract of the serializer (C20) for one-byte payloads: what is written is
/// read back.
#[cfg(kani)]
pub mod byte_serializer {
    use paladin::serializer::Serializer;
    static ZERO: [u8; 256] = [0; 256];
    pub fn to_bytes<T: serde::Serialize>(_: &Serializer, v: &T) -> anyhow::Result<bytes::Bytes> {
        assert!(std::mem::size_of::<T>() == 1);
        let x = unsafe { *(v as *const T as *const u8) };
        Ok(bytes::Bytes::from_static(&ZERO[..x as usize]))
    }
    pub fn from_bytes<T: for<'a> serde::Deserialize<'a>>(_: &Serializer, b: &[u8]) -> anyhow::Result<T> {
        assert!(std::mem::size_of::<T>() == 1 && b.len() < 256);
        let x = b.len() as u8;
        Ok(unsafe { std::mem::transmute_copy(&x) })
    }
}

/// The same, each message in memory of its own.
#[cfg(kani)]
pub mod own_bytes {
    use paladin::serializer::Serializer;
    pub fn to_bytes<T: serde::Serialize>(_: &Serializer, v: &T) -> anyhow::Result<bytes::Bytes> {
        assert!(std::mem::size_of::<T>() == 1);
        let x = unsafe { *(v as *const T as *const u8) };
        Ok(bytes::Bytes::from_static(Box::leak(Box::new([x]))))
    }
    pub fn from_bytes<T: for<'a> serde::Deserialize<'a>>(_: &Serializer, b: &[u8]) -> anyhow::Result<T> {
        assert!(std::mem::size_of::<T>() == 1 && b.len() == 1);
        let x = b[0];
        Ok(unsafe { std::mem::transmute_copy(&x) })
    }
}

/// Contract of the serializer (C20): what is written is read back by the same
/// format as the same type, and other bytes are an error.
#[cfg(kani)]
pub mod formats {
    use super::err;
    use paladin::serializer::Serializer;
    fn tag(s: &Serializer) -> u8 {
        match s {
            Serializer::Postcard => 1,
            Serializer::Cbor => 2,
        }
    }
    pub fn to_bytes<T: serde::Serialize>(s: &Serializer, v: &T) -> anyhow::Result<bytes::Bytes> {
        let n = std::mem::size_of::<T>();
        assert!(n <= 3);
        let mut a = [tag(s), 0, 0, 0];
        let p = v as *const T as *const u8;
        let mut i = 0;
        while i < n {
            a[1 + i] = unsafe { *p.add(i) };
            i += 1;
        }
        Ok(bytes::Bytes::from_static(&Box::leak(Box::new(a))[..n + 1]))
    }
    pub fn from_bytes<T: for<'a> serde::Deserialize<'a>>(s: &Serializer, b: &[u8]) -> anyhow::Result<T> {
        let n = std::mem::size_of::<T>();
        if b.len() != n + 1 || b[0] != tag(s) {
            return Err(err());
        }
        let mut a = [0; 3];
        let mut i = 0;
        while i < n {
            a[i] = b[1 + i];
            i += 1;
        }
        Ok(unsafe { std::mem::transmute_copy(&a) })
    }
}

/// Awkward texts.
#[cfg(not(kani))]
pub const TEXTS: [&str; 16] = [
    "", "a", "7", "a1", " a ", "a\n", "\ta\r\n", "\u{e9}\u{2202}\u{1f980}", "{}", "{0} %s", "\"quoted\\\"", "\0", "a: b: c", "A.", "abort-all-key",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",
];
#[cfg(not(kani))]
pub fn any_text() -> String {
    let i = crate::choose(TEXTS.len() + 1);
    let s = match TEXTS.get(i) {
        Some(t) => t.to_string(),
        None => (0..crate::choose(20)).map(|_| (crate::choose(128) as u8) as char).collect(),
    };
    crate::log(format!("{s:?}"));
    s
}

/// Hashing is any function: here a constant one.
#[cfg(kani)]
pub mod hash {
    use std::hash::{DefaultHasher, RandomState};
    pub fn write(_: &mut DefaultHasher, _: &[u8]) {}
    pub fn finish(_: &DefaultHasher) -> u64 {
        0
    }
    pub fn random_state() -> RandomState {
        unsafe { std::mem::transmute((1u64, 2u64)) }
    }
}
