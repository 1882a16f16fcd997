//! Types a user may bring: a number type with side conditions, an image type, a descriptor type. They compute like
//! ordinary ones until their fuse blows (a panic in the middle of the library's work).
use image::{GenericImage, GenericImageView, GrayImage, Luma};
use imageproc::binary_descriptors::BinaryDescriptor;
use imageproc::definitions::Clamp;
use imageproc::point::Point;
use num::{Num, One, Zero};
use simbase::digest::Digest;
use std::ops::*;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

/// Blows at the n-th use; never if n is negative.
pub struct Fuse(AtomicI64);
impl Fuse {
    pub fn new(n: i64) -> Fuse { Fuse(AtomicI64::new(n)) }
    pub fn burn(&self) { if self.0.fetch_sub(1, Ordering::Relaxed) == 0 { panic!("fuse") } }
}
/// An integer whose multiplication may fail. Values from a kernel carry the fuse.
#[derive(Clone, Copy)]
pub struct K<'a>(pub i64, pub Option<&'a Fuse>);
impl PartialEq for K<'_> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
macro_rules! op { ($($t:ident $f:ident $w:ident),*) => { $(impl<'a> $t for K<'a> { type Output = K<'a>; fn $f(self, o: K<'a>) -> K<'a> { let f = self.1.or(o.1); if let Some(f) = f { f.burn() } K(self.0.$w(o.0), f) } })* } }
op!(Add add wrapping_add, Sub sub wrapping_sub, Mul mul wrapping_mul, Div div wrapping_div, Rem rem wrapping_rem);
impl Zero for K<'_> { fn zero() -> Self { K(0, None) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for K<'_> { fn one() -> Self { K(1, None) } }
impl Num for K<'_> { type FromStrRadixErr = std::num::ParseIntError; fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> { i64::from_str_radix(s, r).map(|v| K(v, None)) } }
impl From<u8> for K<'_> { fn from(v: u8) -> Self { K(v as i64, None) } }
impl Clamp<K<'_>> for u8 { fn clamp(x: K<'_>) -> u8 { x.0.clamp(0, 255) as u8 } }
impl Clamp<K<'_>> for i16 { fn clamp(x: K<'_>) -> i16 { x.0.clamp(-32768, 32767) as i16 } }
pub fn ks<'a>(v: &[i64], f: &'a Fuse) -> Vec<K<'a>> { v.iter().map(|&x| K(x, Some(f))).collect() }

/// A grey image behind the user's own type. Being asked for pixels outside of it by way of the unchecked accessors
/// would be undefined behaviour in a real one.
#[derive(Clone)]
pub struct Own { pub im: GrayImage, pub fuse: Option<Arc<Fuse>> }
impl Own {
    fn check(&self, x: u32, y: u32) { if x >= self.im.width() || y >= self.im.height() { eprintln!("unchecked access to ({x}, {y}) of a {}x{} image", self.im.width(), self.im.height()); std::process::abort() } }
    fn use_(&self) { if let Some(f) = &self.fuse { f.burn() } }
}
impl GenericImageView for Own {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) { self.im.dimensions() }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> { self.use_(); *self.im.get_pixel(x, y) }
    unsafe fn unsafe_get_pixel(&self, x: u32, y: u32) -> Luma<u8> { self.check(x, y); self.use_(); *self.im.get_pixel(x, y) }
}
impl GenericImage for Own {
    #[allow(deprecated)]
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Luma<u8> { self.use_(); self.im.get_pixel_mut(x, y) }
    fn put_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) { self.use_(); self.im.put_pixel(x, y, p) }
    unsafe fn unsafe_put_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) { self.check(x, y); self.use_(); self.im.put_pixel(x, y, p) }
    fn blend_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) { self.put_pixel(x, y, p) }
}
impl Digest for Own { fn dig(&self, d: &mut simbase::digest::Dig) { self.im.dig(d) } }

/// A descriptor of any length.
pub struct Desc { pub bits: Vec<u128>, pub at: (u32, u32), pub fuse: Option<Arc<Fuse>> }
impl BinaryDescriptor for Desc {
    fn get_size(&self) -> u32 { self.bits.len() as u32 * 128 }
    fn hamming_distance(&self, o: &Self) -> u32 { if let Some(f) = &self.fuse { f.burn() } self.bits.iter().zip(&o.bits).map(|(a, b)| (a ^ b).count_ones()).sum() }
    fn get_bit_subset(&self, bits: &[u32]) -> u128 { if let Some(f) = &self.fuse { f.burn() } bits.iter().fold(0, |s, b| s << 1 | self.bits[(b / 128) as usize] >> (b % 128) & 1) }
    fn position(&self) -> Point<u32> { Point::new(self.at.0, self.at.1) }
}
impl Digest for Desc { fn dig(&self, d: &mut simbase::digest::Dig) { for b in &self.bits { d.u64(*b as u64); d.u64((*b >> 64) as u64) } self.at.dig(d) } }

use crate::case::{mk, Case, Op, SEEDED};
use crate::cat::kernel_i32;
use imageproc::binary_descriptors::match_binary_descriptors;
use imageproc::drawing::*;
use imageproc::filter::*;
use imageproc::haar::*;
use imageproc::kernel::Kernel;
use imageproc::region_labelling::*;
use imageproc::{local_binary_patterns, stats, suppress};
use simbase::digest::{dig, Dig};
use simbase::gen::G;

const NAMES: [&str; 6] = ["filters<user number>", "1d filters<user number>", "suppress_non_maximum<user image>", "connected_components<user image>", "matching<user descriptors>", "misc<user image>"];
/// A call with user types; `at`: blows after so many uses.
fn build(g: &mut G, kind: usize, at: i64) -> Case {
    let name = NAMES[kind];
    let how = if at < 0 { String::new() } else { format!(" fuse {at}") };
    let own = move |im: &GrayImage| Own { im: im.clone(), fuse: (at >= 0).then(|| Arc::new(Fuse::new(at))) };
    match kind {
        0 => {
            let im = g.gray(3000); let (v, w, h) = kernel_i32(g, 5); let k: Vec<i64> = v.iter().map(|&x| x as i64).collect(); let way = g.r.below(3);
            mk(name, format!("{}x{} kernel {w}x{h} way {way}{how}", im.width(), im.height()), (im, k), move |(im, k)| { let f = Fuse::new(at); let k = ks(k, &f); match way {
                0 => dig(&filter_clamped::<_, _, i16>(im, Kernel::new(&k, w, h))),
                1 => dig(&filter::<_, _, _, Luma<u16>>(im, Kernel::new(&k, w, h), |x: K| x.0 as u16)),
                _ => dig(&filter_clamped::<_, _, u8>(im, Kernel::new(&k, w, h))),
            } })
        }
        1 => {
            let im = g.gray(3000); let (a, b) = (kernel_i32(g, 4), kernel_i32(g, 4)); let n = a.0.len().min(b.0.len());
            let (a, b): (Vec<i64>, Vec<i64>) = (a.0[..n].iter().map(|&x| x as i64).collect(), b.0[..n].iter().map(|&x| x as i64).collect()); let way = g.r.below(4);
            mk(name, format!("{}x{} kernels of {n} way {way}{how}", im.width(), im.height()), (im, a, b), move |(im, a, b)| { let f = Fuse::new(at); let (a, b) = (ks(a, &f), ks(b, &f)); match way {
                0 => dig(&separable_filter(&**im, &a, &b)), 1 => dig(&separable_filter_equal(&**im, &a)), 2 => dig(&horizontal_filter(&**im, &a)), _ => dig(&vertical_filter(&**im, &b)),
            } })
        }
        2 => { let im = g.gray(3000); let r = g.radius(7); mk(name, format!("{}x{} r{r}{how}", im.width(), im.height()), im, move |im| dig(&suppress::suppress_non_maximum(&own(im), r))) }
        3 => { let im = g.gray(3000); let c = if g.r.chance(1, 2) { Connectivity::Four } else { Connectivity::Eight }; let b = if g.r.chance(1, 2) { 0 } else { g.u8() }; mk(name, format!("{}x{} {c:?} bg {b}{how}", im.width(), im.height()), im, move |im| dig(&connected_components(&own(im), c, Luma([b])))) }
        4 => {
            let (na, nb, len) = (g.r.usize(0, 30), g.r.usize(0, 30), g.r.usize(1, 5)); let t = g.r.u32(0, 90); let s = g.seed();
            let base: Vec<u128> = (0..len).map(|_| (g.r.next() as u128) << 64 | g.r.next() as u128).collect();
            let mut mkd = |n: usize| -> Vec<(Vec<u128>, (u32, u32))> { (0..n).map(|i| { let mut b = base.clone(); for _ in 0..g.r.below(20) { let k = g.r.below(len as u64) as usize; b[k] ^= 1 << g.r.below(128) } (b, (i as u32, g.r.below(100) as u32)) }).collect() };
            let (a, b) = (mkd(na), mkd(nb));
            let cast = |v: &[(Vec<u128>, (u32, u32))], f: &Option<Arc<Fuse>>| -> Vec<Desc> { v.iter().map(|(b, p)| Desc { bits: b.clone(), at: *p, fuse: f.clone() }).collect() };
            let inp = |v: &[(Vec<u128>, (u32, u32))]| cast(v, &None);
            mk(name, format!("{na} x {nb} of {len} words threshold {t} seed {s:#x}{how}"), (inp(&a), inp(&b)), move |_| {
                let f = (at >= 0).then(|| Arc::new(Fuse::new(at)));
                let (a, b) = (cast(&a, &f), cast(&b, &f));
                let mut d = Dig::new();
                for (p, q) in match_binary_descriptors(&a, &b, t, Some(s)) { d.add(p).add(q); }
                d.get()
            })
        }
        _ => {
            let im = g.gray(3000); let (w, h) = im.dimensions(); let way = g.r.below(6); let (x, y) = (g.coord(w), g.coord(h)); let (u, v) = (g.coord(w), g.coord(h)); let c = Luma([g.u8()]);
            let other = Arc::new(g.img::<Luma<u8>>(w, h));
            let hf = g.r.below(200) as usize;
            mk(name, format!("{w}x{h} way {way} ({x}, {y}) ({u}, {v}){how}"), (im, other), move |(im, other)| { let o = own(im); match way {
                0 => dig(&local_binary_patterns::local_binary_pattern(&o, x as u32, y as u32)),
                1 => { let e = own(other); dig(&(stats::root_mean_squared_error(&o, &e), stats::peak_signal_to_noise_ratio(&o, &e))) }
                2 => dig(&draw_line_segment(&o, (x as f32, y as f32), (u as f32, v as f32), c)),
                3 => dig(&draw_filled_circle(&o, (x, y), (u & 31).abs(), c)),
                4 => { let fs = enumerate_haar_features(5, 4); dig(&draw_haar_feature(&o, fs[hf % fs.len()])) }
                _ => { let mut o = o; draw_cross_mut(&mut o, c, x, y); draw_hollow_rect_mut(&mut o, imageproc::rect::Rect::at(x, y).of_size((u & 15).unsigned_abs() + 1, (v & 15).unsigned_abs() + 1), c); dig(&o.im) }
            } })
        }
    }
}
pub fn user_ops(v: &mut Vec<Op>) {
    v.push(Op { name: NAMES[0], tags: 0, weight: 1, make: |g| build(g, 0, -1) });
    v.push(Op { name: NAMES[1], tags: 0, weight: 1, make: |g| build(g, 1, -1) });
    v.push(Op { name: NAMES[2], tags: 0, weight: 1, make: |g| build(g, 2, -1) });
    v.push(Op { name: NAMES[3], tags: 0, weight: 1, make: |g| build(g, 3, -1) });
    v.push(Op { name: NAMES[4], tags: SEEDED, weight: 1, make: |g| build(g, 4, -1) });
    v.push(Op { name: NAMES[5], tags: 0, weight: 1, make: |g| build(g, 5, -1) });
}
/// A call that is likely to be aborted by one of the user's types.
pub fn abort(g: &mut G) -> Case {
    let k = g.r.below(6) as usize;
    let at = match g.r.below(3) { 0 => g.r.below(20), 1 => g.r.below(400), _ => g.r.below(20_000) } as i64;
    build(g, k, at)
}
