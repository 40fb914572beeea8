//! Contract of Serializer.
use super::operation::any_serializer;
use crate::common::*;
use crate::nd;
use paladin::config::{self, Config};
use paladin::serializer::Serializer;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum E {
    A,
    B(u32),
    C { x: Option<u8>, y: (u8, bool) },
}
fn any_e() -> E {
    match nd::below(3) {
        0 => E::A,
        1 => E::B(nd::any_u32()),
        _ => E::C { x: if nd::any_bool() { Some(nd::any_u8()) } else { None }, y: (nd::any_u8(), nd::any_bool()) },
    }
}
fn trip<T: Serialize + DeserializeOwned + PartialEq>(s: Serializer, v: &T) {
    let b = ManuallyDrop::new(s.to_bytes(v));
    match &*b {
        Ok(b) => {
            let r = ManuallyDrop::new(s.from_bytes::<T>(b));
            post!(matches!(&*r, Ok(r) if r == v), "a value survives serialization");
            if !b.is_empty() {
                let r = ManuallyDrop::new(s.from_bytes::<T>(&b[..b.len() - 1]));
                post!(r.is_err(), "truncated bytes are an error");
            }
        }
        Err(_) => post!(false, "a value can be serialized"),
    }
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
fn round_trip_enum() {
    trip(any_serializer(), &any_e());
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(12))]
fn round_trip_ints() {
    trip(any_serializer(), &(nd::any_u8(), nd::any_u32(), nd::any_u64()));
}
/// Any bytes: a value or an error, never a panic; and a value re-serializes.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
fn any_bytes() {
    let s = any_serializer();
    let a = [nd::any_u8(), nd::any_u8(), nd::any_u8(), nd::any_u8()];
    let n = nd::below(5);
    let r = ManuallyDrop::new(s.from_bytes::<E>(&a[..n]));
    cover!(r.is_ok(), "well-formed");
    cover!(r.is_err(), "malformed");
    post!(n > 0 || r.is_err(), "no bytes are malformed");
    if let Ok(v) = &*r {
        trip(s, v);
    }
}
/// The configured format is used.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
fn configured() {
    let cbor = nd::any_bool();
    let c = ManuallyDrop::new(Config {
        serializer: if cbor { config::Serializer::Cbor } else { config::Serializer::Postcard },
        ..Default::default()
    });
    let s = Serializer::from(&*c);
    post!(matches!(s, Serializer::Cbor) == cbor, "the configured format is selected");
}
/// The formats differ: each is used when it is asked for.
#[cfg(not(kani))]
fn formats() {
    let v = any_e();
    let p = Serializer::Postcard.to_bytes(&v).unwrap();
    let c = Serializer::Cbor.to_bytes(&v).unwrap();
    post!(p[..] == postcard::to_allocvec(&v).unwrap()[..], "postcard is postcard");
    let mut w = vec![];
    ciborium::into_writer(&v, &mut w).unwrap();
    post!(c[..] == w[..], "cbor is cbor");
    post!(Serializer::Postcard.from_bytes::<E>(&p).unwrap() == v, "a value survives serialization");
    post!(Serializer::Cbor.from_bytes::<E>(&c).unwrap() == v, "a value survives serialization");
    post!(Serializer::Postcard.to_string() == "postcard" && Serializer::Cbor.to_string() == "cbor", "formats are named");
}
/// Strings, maps, nested and empty containers.
#[cfg(not(kani))]
fn containers() {
    let s = any_serializer();
    let strings = ["", "a", "déjà", "\u{1F980} crab", &"long ".repeat(100)];
    let st = strings[nd::below(strings.len())].to_string();
    let n = [0usize, 1, 23, 24, 255, 256, 1000, 70_000][nd::below(8)];
    let v: Vec<u16> = (0..n).map(|i| (i * 977) as u16).collect();
    trip(s, &(st.clone(), v.clone(), Some(vec![st.clone(); 2]), ()));
    let m: std::collections::BTreeMap<String, i64> = (0..n.min(30)).map(|i| (format!("{i}{st}"), -(i as i64) * 1_000_000_007)).collect();
    trip(s, &m);
    trip(s, &bytes::Bytes::from(v.iter().map(|x| *x as u8).collect::<Vec<_>>()));
    trip(s, &(f64::MIN, f32::EPSILON, i64::MIN, u64::MAX, 'é'));
}
#[cfg(not(kani))]
crate::harnesses![round_trip_enum, round_trip_ints, any_bytes, configured, formats, containers];
