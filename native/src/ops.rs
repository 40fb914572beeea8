use paladin::operation::{FatalError, FatalStrategy, Monoid, Operation, Result};
use paladin::{AbortSignal, RemoteExecute};
use serde::{Deserialize, Serialize};

/// A number; UNSER cannot be serialized.
#[derive(Deserialize, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct X(pub u32);
impl Serialize for X {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if self.0 == UNSER {
            return Err(serde::ser::Error::custom("cannot be serialized"));
        }
        s.serialize_newtype_struct("X", &self.0)
    }
}
pub const UNSER: u32 = 777;
/// The free monoid: `fold` is right for every monoid iff it is right here.
#[derive(Serialize, Deserialize, RemoteExecute, Debug)]
pub struct Concat;
impl Monoid for Concat {
    type Elem = Vec<X>;
    fn empty(&self) -> Vec<X> {
        vec![]
    }
    fn combine(&self, mut a: Vec<X>, b: Vec<X>, _: AbortSignal) -> Result<Vec<X>> {
        if a.iter().chain(&b).any(|x| x.0 == FAIL) {
            return Err(FatalError::from_str("combine failed", FatalStrategy::Terminate).into());
        }
        a.extend(b);
        Ok(a)
    }
}
pub const FAIL: u32 = 666;
/// The free function: tags its input.
#[derive(Serialize, Deserialize, RemoteExecute, Debug)]
pub struct Tag(pub u32);
impl Operation for Tag {
    type Input = X;
    type Output = (u32, X);
    fn execute(&self, x: X, _: AbortSignal) -> Result<(u32, X)> {
        if x.0 == FAIL {
            return Err(FatalError::from_str("map failed", FatalStrategy::Terminate).into());
        }
        Ok((self.0, x))
    }
}
/// Adjacent spans are joined; others cannot be combined.
#[derive(Serialize, Deserialize, RemoteExecute, Debug)]
pub struct Span;
impl Monoid for Span {
    type Elem = (u32, u32);
    fn empty(&self) -> (u32, u32) {
        (0, 0)
    }
    fn combine(&self, a: (u32, u32), b: (u32, u32), _: AbortSignal) -> Result<(u32, u32)> {
        if a.1 != b.0 {
            return Err(FatalError::from_str("not adjacent", FatalStrategy::Terminate).into());
        }
        Ok((a.0, b.1))
    }
}
