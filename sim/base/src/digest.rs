//! Result digests. Floating-point NaNs are canonicalised, everything else is bit-exact.
use image::{ImageBuffer, Pixel};
use std::sync::Arc;
#[derive(Clone)]
pub struct Dig(pub u64);
impl Default for Dig { fn default() -> Self { Self::new() } }
impl Dig {
    pub fn new() -> Self { Dig(0xcbf29ce484222325) }
    #[inline(never)]
    pub fn u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 31;
    }
    #[inline(never)]
    pub fn bytes(&mut self, b: &[u8]) {
        self.u64(b.len() as u64);
        let mut it = b.chunks_exact(8);
        for c in &mut it { self.u64(u64::from_le_bytes(c.try_into().unwrap())); }
        let mut t = 0u64;
        for &x in it.remainder() { t = t << 8 | x as u64; }
        self.u64(t);
    }
    #[inline(never)]
    pub fn f32s(&mut self, b: &[f32]) {
        self.u64(b.len() as u64);
        for &x in b { self.u64(if x.is_nan() { 0x7fc00000 } else { x.to_bits() as u64 }); }
    }
    #[inline(never)]
    pub fn f64s(&mut self, b: &[f64]) {
        self.u64(b.len() as u64);
        for &x in b { self.u64(if x.is_nan() { 0x7ff8000000000000 } else { x.to_bits() }); }
    }
    pub fn add<T: Digest + ?Sized>(&mut self, x: &T) -> &mut Self { x.dig(self); self }
    pub fn get(&self) -> u64 { self.0 }
}
pub fn dig<T: Digest + ?Sized>(x: &T) -> u64 { let mut d = Dig::new(); x.dig(&mut d); d.0 }
pub trait Digest { fn dig(&self, d: &mut Dig); }
/// Slices of primitive subpixels, hashed out of line.
pub trait PrimDig: Sized { fn dig_slice(s: &[Self], d: &mut Dig); }
macro_rules! ints { ($($t:ty),*) => {$(
    impl PrimDig for $t { #[inline(never)] fn dig_slice(s: &[Self], d: &mut Dig) {
        let b = unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, std::mem::size_of_val(s)) }; d.bytes(b); } }
    impl Digest for $t { #[inline(never)] fn dig(&self, d: &mut Dig) { d.u64(*self as u64); } }
)*} }
ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
impl PrimDig for f32 { fn dig_slice(s: &[f32], d: &mut Dig) { d.f32s(s); } }
impl PrimDig for f64 { fn dig_slice(s: &[f64], d: &mut Dig) { d.f64s(s); } }
impl Digest for f32 { fn dig(&self, d: &mut Dig) { d.f32s(&[*self]); } }
impl Digest for f64 { fn dig(&self, d: &mut Dig) { d.f64s(&[*self]); } }
impl Digest for bool { fn dig(&self, d: &mut Dig) { d.u64(*self as u64); } }
impl Digest for () { fn dig(&self, d: &mut Dig) { d.u64(1); } }
impl Digest for str { fn dig(&self, d: &mut Dig) { d.bytes(self.as_bytes()); } }
impl Digest for String { fn dig(&self, d: &mut Dig) { d.bytes(self.as_bytes()); } }
impl<T: Digest + ?Sized> Digest for &T { fn dig(&self, d: &mut Dig) { (**self).dig(d); } }
impl<T: Digest + ?Sized> Digest for Arc<T> { fn dig(&self, d: &mut Dig) { (**self).dig(d); } }
impl<T: Digest> Digest for Option<T> { fn dig(&self, d: &mut Dig) { match self { None => d.u64(0), Some(x) => { d.u64(1); x.dig(d) } } } }
impl<T: Digest, E: Digest> Digest for Result<T, E> { fn dig(&self, d: &mut Dig) { match self { Err(e) => { d.u64(0); e.dig(d) } Ok(x) => { d.u64(1); x.dig(d) } } } }
impl<T: Digest> Digest for [T] { fn dig(&self, d: &mut Dig) { d.u64(self.len() as u64); for x in self { x.dig(d); } } }
impl<T: Digest> Digest for Vec<T> { fn dig(&self, d: &mut Dig) { self[..].dig(d); } }
impl<T: Digest, const N: usize> Digest for [T; N] { fn dig(&self, d: &mut Dig) { self[..].dig(d); } }
macro_rules! tup { ($($n:ident),*) => { impl<$($n: Digest),*> Digest for ($($n,)*) { #[allow(non_snake_case)] fn dig(&self, d: &mut Dig) { let ($($n,)*) = self; $($n.dig(d);)* } } } }
tup!(A); tup!(A, B); tup!(A, B, C); tup!(A, B, C, D); tup!(A, B, C, D, E); tup!(A, B, C, D, E, F); tup!(A, B, C, D, E, F, H);
impl<P: Pixel> Digest for ImageBuffer<P, Vec<P::Subpixel>> where P::Subpixel: PrimDig {
    fn dig(&self, d: &mut Dig) {
        d.u64(self.width() as u64); d.u64(self.height() as u64);
        <P::Subpixel as PrimDig>::dig_slice(self.as_raw(), d);
    }
}
