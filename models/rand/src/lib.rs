//! Contract of `rand` as paladin uses it: any value of the requested type.
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub mod rngs {
    pub use super::ThreadRng;
}
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        kenv::any_u32()
    }
    fn next_u64(&mut self) -> u64 {
        kenv::any_u64()
    }
}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
}
pub trait Rng: RngCore {
    fn gen<T>(&mut self) -> T
    where
        distributions::Standard: distributions::Distribution<T>,
    {
        distributions::Distribution::sample(&distributions::Standard, self)
    }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T {
        d.sample(self)
    }
    fn sample_iter<T, D: distributions::Distribution<T>>(self, d: D) -> distributions::DistIter<D, Self, T>
    where
        Self: Sized,
    {
        distributions::DistIter { d, r: self, _t: std::marker::PhantomData }
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        self.next_u32() & 1 == 1
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub mod distributions {
    use super::Rng;
    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T;
    }
    impl<T, D: Distribution<T> + ?Sized> Distribution<T> for &D {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T {
            (**self).sample(r)
        }
    }
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Standard;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Alphanumeric;
    impl Distribution<u8> for Alphanumeric {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> u8 {
            let _ = r;
            const S: &[u8; 62] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
            S[kenv::any_below(62) as usize]
        }
    }
    macro_rules! std_ints { ($($t:ty)*) => {$( impl Distribution<$t> for Standard { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> $t { r.next_u64() as $t } } )*} }
    std_ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize u128);
    impl Distribution<bool> for Standard {
        fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> bool {
            r.next_u32() & 1 == 1
        }
    }
    pub struct DistIter<D, R, T> {
        pub(crate) d: D,
        pub(crate) r: R,
        pub(crate) _t: std::marker::PhantomData<T>,
    }
    impl<D: Distribution<T>, R: Rng, T> Iterator for DistIter<D, R, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            Some(self.d.sample(&mut self.r))
        }
    }
}
