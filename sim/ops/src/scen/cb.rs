//! C08 and C09: instrumented user callbacks.
use super::ctx::{ctx, in_ctx, Ctx};
use super::*;
use crate::cat::*;
use image::{GrayImage, ImageBuffer, Luma, Rgb, Rgba};
use imageproc::definitions::Image;
use imageproc::drawing::*;
use imageproc::filter::bilateral::{bilateral_filter, ColorDistance};
use imageproc::filter::*;
use imageproc::geometric_transformations::*;
use imageproc::gradients::*;
use imageproc::kernel::{self, Kernel};
use imageproc::map::*;
use imageproc::utils::{pixel_diffs, significant_pixel_diff_summary};
use simbase::rng::mix;
use simbase::rt::point;
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

/// New pixel values are BASE + number of the invocation that produced them.
const BASE: u32 = 1 << 22;
pub struct Boom { pub tag: u64, pub n: u64 }
/// State shared by all invocations of one user callback.
pub struct Cb { tag: u64, n: AtomicU64, keys: Vec<AtomicU64>, active: AtomicI64, max_active: AtomicI64, closed: AtomicU64, late: AtomicU64, panics: Vec<u64>, all_from: u64, raised: AtomicU64, form: u64,
    /// what the callback itself does with the library, in its first few invocations
    pub hook: Option<Arc<dyn Fn() + Send + Sync>> }
impl Cb {
    fn new(tag: u64, elems: usize) -> Cb { Cb { tag, n: 0.into(), keys: (0..elems * 2 + 64).map(|_| 0.into()).collect(), active: 0.into(), max_active: 0.into(), closed: 0.into(), late: 0.into(), panics: vec![], all_from: u64::MAX, raised: 0.into(), form: 0, hook: None } }
    /// One invocation: returns its number.
    fn enter(&self, key: u64) -> u32 {
        let n = self.n.fetch_add(1, SeqCst);
        if self.closed.load(SeqCst) != 0 { self.late.fetch_add(1, SeqCst); }
        let a = self.active.fetch_add(1, SeqCst) + 1;
        self.max_active.fetch_max(a, SeqCst);
        if n % 5 == 0 { point() }
        if n < 2 { if let Some(h) = &self.hook { h() } }
        if n >= self.all_from || self.panics.contains(&n) {
            self.raised.fetch_add(1, SeqCst);
            self.active.fetch_sub(1, SeqCst);
            match self.form {
                0 => std::panic::panic_any(Boom { tag: self.tag, n }),
                1 => panic!("boom {} {n}", self.tag),
                _ => std::panic::resume_unwind(Box::new(Boom { tag: self.tag, n })),
            }
        }
        if let Some(k) = self.keys.get(n as usize) { k.store(key, SeqCst) }
        if n % 3 == 0 { point() }
        self.active.fetch_sub(1, SeqCst);
        n as u32
    }
    /// Invocation number from a panic payload raised by this callback.
    fn own(&self, p: &(dyn Any + Send)) -> bool {
        if let Some(b) = p.downcast_ref::<Boom>() { return b.tag == self.tag }
        if let Some(s) = p.downcast_ref::<String>() { return s.starts_with(&format!("boom {} ", self.tag)) }
        false
    }
}
pub enum Out { Tokens(Vec<u32>), Flags(Vec<bool>), None }
type Ran = (Result<(), Box<dyn Any + Send>>, Out);
#[derive(Clone)]
pub struct CbCase {
    pub name: &'static str, pub desc: String, pub kind: usize,
    /// sequential variant: no two invocations at once
    pub seq: bool,
    /// old content of an image modified in place
    pub old: Option<Vec<u32>>,
    /// key expected for each element; None if the number of invocations is not documented
    pub keys: Option<Vec<u64>>,
    pub calls: u64,
    pub run: Arc<dyn Fn(&Cb) -> Ran + Send + Sync>,
}
fn caught(f: impl FnOnce() -> Out) -> Ran { match catch_unwind(AssertUnwindSafe(f)) { Ok(o) => (Ok(()), o), Err(e) => (Err(e), Out::None) } }
fn k1(a: u64) -> u64 { mix(a) }
fn k2(a: u64, b: u64) -> u64 { mix(mix(a) ^ b) }
fn kxy(x: u32, y: u32, v: u64) -> u64 { k2((x as u64) << 32 | y as u64, v) }
fn kf(x: f32, y: f32) -> u64 { k2(x.to_bits() as u64, y.to_bits() as u64) }
fn k3(p: &[u8]) -> u64 { p.iter().fold(p.len() as u64, |a, b| mix(a ^ *b as u64)) }
/// u32 pixels below BASE
fn img32(g: &mut G, w: u32, h: u32) -> Image<Luma<u32>> { let mut r = Rng::new(g.r.next()); let m = r.pick(&[4, 1000, BASE as u64]); ImageBuffer::from_fn(w, h, |_, _| Luma([r.below(m) as u32])) }
fn img32c(g: &mut G, w: u32, h: u32) -> Image<Rgb<u32>> { let a = img32(g, w, h); ImageBuffer::from_fn(w, h, |x, y| { let v = a.get_pixel(x, y).0[0]; Rgb([v, v, v]) }) }
fn toks4(im: &Image<Rgba<u32>>) -> Vec<u32> { im.as_raw().clone() }
fn toks<P: image::Pixel<Subpixel = u32>>(im: &Image<P>) -> Vec<u32> { im.as_raw().clone() }
/// One token per 3-channel pixel; pixels of mixed origin give u32::MAX.
fn toks3(im: &Image<Rgb<u32>>) -> Vec<u32> { im.pixels().map(|p| if p.0[0] == p.0[1] && p.0[1] == p.0[2] { p.0[0] } else { u32::MAX }).collect() }
fn conv(im: &[u8], c: usize, w: u32, h: u32, k: &[i32], kw: u32, kh: u32) -> Vec<u64> {
    let mut v = vec![];
    for y in 0..h as i64 { for x in 0..w as i64 { for ch in 0..c {
        let mut a = 0i32;
        for ky in 0..kh as i64 { for kx in 0..kw as i64 {
            let xp = (x + kx - kw as i64 / 2).clamp(0, w as i64 - 1); let yp = (y + ky - kh as i64 / 2).clamp(0, h as i64 - 1);
            a = a.wrapping_add((im[((yp * w as i64 + xp) as usize) * c + ch] as i32).wrapping_mul(k[(ky * kw as i64 + kx) as usize]));
        } }
        v.push(k1(a as u32 as u64));
    } } }
    v
}
struct Dist<'a>(&'a Cb);
impl ColorDistance<Luma<u8>> for Dist<'_> { fn color_distance(&self, a: &Luma<u8>, b: &Luma<u8>) -> f32 { self.0.enter(k2(a.0[0] as u64, b.0[0] as u64)); 1.0 } }
fn in_place<T>(mut im: T, f: impl FnOnce(&mut T), t: impl FnOnce(&T) -> Vec<u32>) -> Ran { let r = catch_unwind(AssertUnwindSafe(|| f(&mut im))); (r, Out::Tokens(t(&im))) }

pub const AREA: u64 = 4000;
pub fn case(g: &mut G, only: Option<usize>) -> CbCase {
    let (w, h) = g.dims_cap(AREA);
    // now and then more than 65536 columns or rows
    let long = only.is_none() && g.cap > 2000 && g.r.chance(1, 120);
    let (w, h) = if long { let n = g.r.u32(65_537, 67_000); if g.r.chance(1, 2) { (n, 1) } else { (1, n) } } else { (w, h) };
    let n = w as u64 * h as u64;
    let d = format!("{w}x{h}");
    let c = |name: &'static str, seq: bool, old: Option<Vec<u32>>, keys: Option<Vec<u64>>, run: Arc<dyn Fn(&Cb) -> Ran + Send + Sync>| { let calls = keys.as_ref().map_or(n * 9, |k| k.len() as u64); CbCase { name, desc: d.clone(), kind: 0, seq, old, keys, calls, run } };
    macro_rules! a { ($e:expr) => { Arc::new($e) }; }
    let par = g.r.chance(2, 3);
    let k = only.unwrap_or_else(|| if long { g.r.usize(0, 8) } else { g.r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 9, 9, 10, 11, 12, 13, 14, 15, 16, 16, 17, 17, 18, 19, 19, 20, 21, 22]) });
    let mut made = match k {
        0 => { let im = g.img::<Rgb<u8>>(w, h); let keys = im.as_raw().iter().map(|x| k1(*x as u64)).collect();
            if par { c("map_subpixels_parallel", false, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&map_subpixels_parallel::<_, _, u32>(&im, |v| BASE + cb.enter(k1(v as u64)))))))) }
            else { c("map_subpixels", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&map_subpixels::<_, _, u32>(&im, |v| BASE + cb.enter(k1(v as u64)))))))) } }
        1 => { let im = img32c(g, w, h); let old = toks(&im); let keys = old.iter().map(|x| k1(*x as u64)).collect();
            if par { c("map_subpixels_mut_parallel", false, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| map_subpixels_mut_parallel(i, |v| BASE + cb.enter(k1(v as u64))), toks))) }
            else { c("map_subpixels_mut", true, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| map_subpixels_mut(i, |v| BASE + cb.enter(k1(v as u64))), toks))) } }
        2 => { let im = g.img::<Rgb<u8>>(w, h); let keys = im.pixels().map(|p| k3(&p.0)).collect();
            if par { c("map_pixels_parallel", false, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&map_pixels_parallel(&im, |p: Rgb<u8>| Luma([BASE + cb.enter(k3(&p.0))]))))))) }
            else { c("map_pixels", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&map_pixels(&im, |p: Rgb<u8>| Luma([BASE + cb.enter(k3(&p.0))]))))))) } }
        3 => { let im = img32c(g, w, h); let old = toks3(&im); let keys = old.iter().map(|x| k1(*x as u64)).collect();
            let f = |cb: &Cb, p: Rgb<u32>| { let t = BASE + cb.enter(k1(p.0[0] as u64)); Rgb([t, t, t]) };
            if par { c("map_pixels_mut_parallel", false, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| map_pixels_mut_parallel(i, |p| f(cb, p)), toks3))) }
            else { c("map_pixels_mut", true, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| map_pixels_mut(i, |p| f(cb, p)), toks3))) } }
        4 => { let im = g.img::<Rgba<u8>>(w, h); let keys = im.enumerate_pixels().map(|(x, y, p)| kxy(x, y, k3(&p.0))).collect();
            let f = |cb: &Cb, x: u32, y: u32, p: Rgba<u8>| { let t = BASE + cb.enter(kxy(x, y, k3(&p.0))); Rgb([t, t, t]) };
            if par { c("map_enumerated_pixels_parallel", false, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks3(&map_enumerated_pixels_parallel(&im, |x, y, p| f(cb, x, y, p))))))) }
            else { c("map_enumerated_pixels", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks3(&map_enumerated_pixels(&im, |x, y, p| f(cb, x, y, p))))))) } }
        5 => { let im = img32c(g, w, h); let old = toks3(&im); let keys = im.enumerate_pixels().map(|(x, y, p)| kxy(x, y, p.0[0] as u64)).collect();
            let f = |cb: &Cb, x: u32, y: u32, p: Rgb<u32>| { let t = BASE + cb.enter(kxy(x, y, p.0[0] as u64)); Rgb([t, t, t]) };
            if par { c("map_enumerated_pixels_mut_parallel", false, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| map_enumerated_pixels_mut_parallel(i, |x, y, p| f(cb, x, y, p)), toks3))) }
            else { c("map_enumerated_pixels_mut", true, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| map_enumerated_pixels_mut(i, |x, y, p| f(cb, x, y, p)), toks3))) } }
        6 => { let (p, q) = (g.img::<Luma<u8>>(w, h), img32(g, w, h)); let keys = p.pixels().zip(q.pixels()).map(|(p, q)| k2(p.0[0] as u64, q.0[0] as u64)).collect();
            c("map_pixels2", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&map_pixels2(&p, &q, |p: Luma<u8>, q: Luma<u32>| Luma([BASE + cb.enter(k2(p.0[0] as u64, q.0[0] as u64))]))))))) }
        7 => { let im = g.img::<Luma<u8>>(w, h); let (kv, kw, kh) = kernel_i32(g, 5); let keys = conv(im.as_raw(), 1, w, h, &kv, kw, kh);
            if par { c("filter_parallel<Luma8>", false, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&filter_parallel::<_, i32, _, Luma<u32>>(&im, Kernel::new(&kv, kw, kh), |x| BASE + cb.enter(k1(x as u32 as u64)))))))) }
            else { c("filter<Luma8>", true, None, Some(keys), a!(move |cb: &Cb| caught(|| { let mut count = 0u32; let o = filter::<_, i32, _, Luma<u32>>(&im, Kernel::new(&kv, kw, kh), |x| { count += 1; BASE + cb.enter(k1(x as u32 as u64)) }); std::hint::black_box(count); Out::Tokens(toks(&o)) }))) } }
        8 => { let im = g.img::<Rgb<u8>>(w, h); let (kv, kw, kh) = kernel_i32(g, 4); let keys = conv(im.as_raw(), 3, w, h, &kv, kw, kh);
            if par { c("filter_parallel<Rgb8>", false, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&filter_parallel::<_, i32, _, Rgb<u32>>(&im, Kernel::new(&kv, kw, kh), |x| BASE + cb.enter(k1(x as u32 as u64)))))))) }
            else { c("filter<Rgb8>", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&filter::<_, i32, _, Rgb<u32>>(&im, Kernel::new(&kv, kw, kh), |x| BASE + cb.enter(k1(x as u32 as u64)))))))) } }
        9 | 10 => { // source pixel i holds BASE + i, invocation n maps to source pixel n
            let (ow, oh) = if k == 9 { (w, h) } else { let d = g.dims_cap(AREA); (d.0.max(1), d.1.max(1)) };
            let m = ow as u64 * oh as u64; let sw = g.r.u32(1, 90); let (sw, sh) = if k == 9 { (w, h) } else { (sw, (m as u32).div_ceil(sw) + 1) };
            let src: Image<Rgb<f32>> = ImageBuffer::from_fn(sw, sh, |x, y| { let v = (BASE + y * sw + x) as f32; Rgb([v, v, v]) });
            let keys = (0..m as u32).map(|i| kf((i % ow.max(1)) as f32, (i / ow.max(1)) as f32)).collect();
            let map = move |cb: &Cb, x: f32, y: f32| { let t = cb.enter(kf(x, y)); ((t % sw) as f32, (t / sw) as f32) };
            let tk = |im: &Image<Rgb<f32>>| im.pixels().map(|p| if p.0[0] == p.0[1] && p.0[1] == p.0[2] { p.0[0] as u32 } else { u32::MAX }).collect::<Vec<u32>>();
            if k == 9 { c("warp_with", false, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(tk(&warp_with(&src, |x, y| map(cb, x, y), Interpolation::Nearest, Rgb([1.0, 2.0, 3.0]))))))) }
            else { let fill = g.r.u32(1, 1000); c("warp_into_with", false, Some(vec![fill; m as usize]), Some(keys), a!(move |cb: &Cb| in_place(ImageBuffer::from_pixel(ow, oh, Rgb([fill as f32; 3])), |o| warp_into_with(&src, |x, y| map(cb, x, y), Interpolation::Nearest, Rgb([1.0, 2.0, 3.0]), o), tk))) } }
        11 => { let im = g.img::<Luma<u8>>(w, h); let gm = sobel_gradients(&im); let keys = gm.pixels().map(|p| k1(p.0[0] as u64)).collect();
            if par { c("gradients", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&gradients(&im, kernel::SOBEL_HORIZONTAL_3X3, kernel::SOBEL_VERTICAL_3X3, |p: Luma<u16>| Luma([BASE + cb.enter(k1(p.0[0] as u64))]))))))) }
            else { c("sobel_gradient_map", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&sobel_gradient_map(&im, |p: Luma<u16>| Luma([BASE + cb.enter(k1(p.0[0] as u64))]))))))) } }
        12 => { let p = g.img::<Luma<u8>>(w, h); let mut q = p.clone(); for i in 0..g.r.u32(0, 9) { if n > 0 { q.put_pixel(i * 7 % w, i * 3 % h, Luma([i as u8])) } }
            let keys: Vec<u64> = p.enumerate_pixels().zip(q.pixels()).map(|((x, y, p), q)| kxy(x, y, k2(p.0[0] as u64, q.0[0] as u64))).collect();
            let f = |cb: &Cb, a: (u32, u32, Luma<u8>), b: (u32, u32, Luma<u8>)| { assert!(a.0 == b.0 && a.1 == b.1); cb.enter(kxy(a.0, a.1, k2(a.2 .0[0] as u64, b.2 .0[0] as u64))) % 2 == 1 };
            if par { c("pixel_diffs", true, None, Some(keys), a!(move |cb: &Cb| caught(|| { let ds = pixel_diffs(&p, &q, |a, b| f(cb, a, b)); let mut fl = vec![false; n as usize]; for d in ds { fl[(d.y * w + d.x) as usize] = true } Out::Flags(fl) }))) }
            else { c("significant_pixel_diff_summary", true, None, Some(keys), a!(move |cb: &Cb| caught(|| { let s = significant_pixel_diff_summary(&p, &q, |a, b| f(cb, a, b)); if s.is_some() != (n > 1) { panic!("harness: summary {s:?}") } Out::None }))) } }
        15 => { let im = g.img::<Luma<u8>>(w, h); let keys = im.as_raw().iter().map(|x| k1(*x as u64)).collect();
            if par { c("map_subpixels_parallel<Luma8>", false, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&map_subpixels_parallel::<_, _, u32>(&im, |v| BASE + cb.enter(k1(v as u64)))))))) }
            else { c("map_subpixels<Luma8>", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&map_subpixels::<_, _, u32>(&im, |v| BASE + cb.enter(k1(v as u64)))))))) } }
        16 => { let im = img32(g, w, h); let old = toks(&im); let keys = old.iter().map(|x| k1(*x as u64)).collect(); let px = g.r.chance(1, 2);
            if par { c(if px { "map_pixels_mut_parallel<Luma32>" } else { "map_subpixels_mut_parallel<Luma32>" }, false, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| if px { map_pixels_mut_parallel(i, |v| Luma([BASE + cb.enter(k1(v.0[0] as u64))])) } else { map_subpixels_mut_parallel(i, |v| BASE + cb.enter(k1(v as u64))) }, toks))) }
            else { c(if px { "map_pixels_mut<Luma32>" } else { "map_subpixels_mut<Luma32>" }, true, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| if px { map_pixels_mut(i, |v| Luma([BASE + cb.enter(k1(v.0[0] as u64))])) } else { map_subpixels_mut(i, |v| BASE + cb.enter(k1(v as u64))) }, toks))) } }
        17 => { let im = img32(g, w, h); let old = toks(&im); let keys = im.enumerate_pixels().map(|(x, y, p)| kxy(x, y, p.0[0] as u64)).collect();
            let f = |cb: &Cb, x: u32, y: u32, p: Luma<u32>| Luma([BASE + cb.enter(kxy(x, y, p.0[0] as u64))]);
            match (par, g.r.chance(1, 2)) {
                (true, true) => c("map_enumerated_pixels_mut_parallel<Luma32>", false, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| map_enumerated_pixels_mut_parallel(i, |x, y, p| f(cb, x, y, p)), toks))),
                (false, true) => c("map_enumerated_pixels_mut<Luma32>", true, Some(old), Some(keys), a!(move |cb: &Cb| in_place(im.clone(), |i| map_enumerated_pixels_mut(i, |x, y, p| f(cb, x, y, p)), toks))),
                (true, false) => c("map_enumerated_pixels_parallel<Luma32>", false, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&map_enumerated_pixels_parallel(&im, |x, y, p| f(cb, x, y, p))))))),
                _ => c("map_enumerated_pixels<Luma32>", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&map_enumerated_pixels(&im, |x, y, p| f(cb, x, y, p))))))),
            } }
        18 => { let im = g.img::<Rgba<u8>>(w, h); let (kv, kw, kh) = kernel_i32(g, 4); let keys = conv(im.as_raw(), 4, w, h, &kv, kw, kh);
            if par { c("filter_parallel<Rgba8>", false, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks4(&filter_parallel::<_, i32, _, Rgba<u32>>(&im, Kernel::new(&kv, kw, kh), |x| BASE + cb.enter(k1(x as u32 as u64)))))))) }
            else { c("filter<Rgba8>", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks4(&filter::<_, i32, _, Rgba<u32>>(&im, Kernel::new(&kv, kw, kh), |x| BASE + cb.enter(k1(x as u32 as u64)))))))) } }
        19 => { // other samplings, mappings inside and outside of the image; results are not traced
            let im = g.img::<Luma<u8>>(w, h); let (ip, style) = (g.r.pick(&[Interpolation::Nearest, Interpolation::Bilinear, Interpolation::Bicubic]), g.r.below(4));
            let keys = (0..n as u32).map(|i| kf((i % w.max(1)) as f32, (i / w.max(1)) as f32)).collect();
            let map = move |cb: &Cb, x: f32, y: f32| { let t = cb.enter(kf(x, y)); match style { 0 => (x, y), 1 => (x * 0.7 + 0.3, y * 1.2), 2 => (-5.0, -5.0), _ => if t % 3 == 0 { (f32::NAN, y) } else { (x, y + 0.5) } } };
            if par { c("warp_with<Luma8>", false, None, Some(keys), a!(move |cb: &Cb| caught(|| { std::hint::black_box(warp_with(&im, |x, y| map(cb, x, y), ip, Luma([9]))); Out::None }))) }
            else { c("warp_into_with<Luma8>", false, None, Some(keys), a!(move |cb: &Cb| caught(|| { let mut o: GrayImage = ImageBuffer::new(w, h); warp_into_with(&im, |x, y| map(cb, x, y), ip, Luma([9]), &mut o); Out::None }))) } }
        20 => { let im = g.img::<Rgb<u8>>(w, h); let ch: Vec<_> = (0..3).map(|k| sobel_gradients(&GrayImage::from_fn(w, h, |x, y| Luma([im.get_pixel(x, y).0[k]])))).collect();
            let key = |p: [u16; 3]| k2(p[0] as u64, (p[1] as u64) << 32 | p[2] as u64);
            let keys = (0..n as usize).map(|i| key([ch[0].as_raw()[i], ch[1].as_raw()[i], ch[2].as_raw()[i]])).collect();
            if par { c("gradients<Rgb8>", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&gradients(&im, kernel::SOBEL_HORIZONTAL_3X3, kernel::SOBEL_VERTICAL_3X3, |p: Rgb<u16>| Luma([BASE + cb.enter(key(p.0))]))))))) }
            else { c("sobel_gradient_map<Rgb8>", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks(&sobel_gradient_map(&im, |p: Rgb<u16>| Luma([BASE + cb.enter(key(p.0))]))))))) } }
        21 => { let (p, q) = (g.img::<Rgb<u8>>(w, h), g.img::<Rgb<u8>>(w, h));
            let keys: Vec<u64> = p.enumerate_pixels().zip(q.pixels()).map(|((x, y, p), q)| kxy(x, y, k2(k3(&p.0), k3(&q.0)))).collect();
            let m = g.r.u32(1, 4);
            c("pixel_diffs<Rgb8>", true, None, Some(keys), a!(move |cb: &Cb| caught(|| { let hit = std::cell::RefCell::new(vec![]); let ds = pixel_diffs(&p, &q, |a, b| { assert!(a.0 == b.0 && a.1 == b.1, "different coordinates"); let t = cb.enter(kxy(a.0, a.1, k2(k3(&a.2 .0), k3(&b.2 .0)))); if t % m == 0 { hit.borrow_mut().push((a.0, a.1)) } t % m == 0 }); let mut got: Vec<_> = ds.iter().map(|d| (d.x, d.y)).collect(); let mut want = hit.into_inner(); got.sort(); want.sort(); if got != want { panic!("the differences returned are not those the predicate chose") } Out::None }))) }
        22 => { let (p, q) = (g.img::<Rgb<u8>>(w, h), g.img::<Luma<f32>>(w, h)); let keys = p.pixels().zip(q.pixels()).map(|(p, q)| k2(k3(&p.0), q.0[0].to_bits() as u64)).collect();
            c("map_pixels2<Rgb8,LumaF32>", true, None, Some(keys), a!(move |cb: &Cb| caught(|| Out::Tokens(toks3(&map_pixels2(&p, &q, |p: Rgb<u8>, q: Luma<f32>| { let t = BASE + cb.enter(k2(k3(&p.0), q.0[0].to_bits() as u64)); Rgb([t, t, t]) })))))) }
        13 => { let (bw, bh) = (w.min(24), h.min(24)); let im = g.img::<Luma<u8>>(bw, bh); let r = g.r.u32(0, 2) as u8; let mut x = c("bilateral_filter", true, None, None, a!(move |cb: &Cb| caught(|| { std::hint::black_box(bilateral_filter(&im, r, 1.5, Dist(cb))); Out::None }))); x.calls = bw as u64 * bh as u64 * (2 * r as u64 + 1).pow(2); x }
        _ => { let im = g.img::<Luma<u8>>(w, h); let pts: Vec<_> = (0..5).map(|_| imageproc::point::Point::new(g.coord(w), g.coord(h))).collect(); let l = g.r.chance(1, 2); let cp = g.r.chance(1, 2);
            let mut pts = pts; pts.dedup(); if pts.len() > 1 && pts[0] == pts[pts.len() - 1] { pts.pop(); } let l = l || pts.len() < 3;
            let mut x = c("draw_antialiased", true, None, None, a!(move |cb: &Cb| caught(|| { let f = |p: Luma<u8>, _q: Luma<u8>, _w: f32| { cb.enter(k1(p.0[0] as u64)); p }; let mut o: GrayImage = im.clone(); let (a, b) = ((pts[0].x, pts[0].y), (pts[pts.len() - 1].x, pts[pts.len() - 1].y)); match (l, cp) { (true, true) => { std::hint::black_box(draw_antialiased_line_segment(&im, a, b, Luma([9]), f)); } (true, false) => draw_antialiased_line_segment_mut(&mut o, a, b, Luma([9]), f), (false, true) => { std::hint::black_box(draw_antialiased_polygon(&im, &pts, Luma([9]), f)); } _ => draw_antialiased_polygon_mut(&mut o, &pts, Luma([9]), f) } Out::None }))); x.calls = 2 * (w + h) as u64; x }
    };
    made.kind = k;
    made
}
/// What a callback does with the library itself: small calls, often of the function that invokes it.
pub struct Inner { cs: Vec<CbCase>, at: AtomicU64, bad: std::sync::Mutex<Option<(String, String)>> }
pub fn inner(g: &mut G, kind: usize) -> Arc<Inner> {
    let c0 = g.cap; g.cap = 60;
    let cs = (0..2).map(|_| { let k = if g.r.chance(2, 3) { kind } else { g.r.usize(0, 22) }; case(g, Some(k)) }).collect();
    g.cap = c0;
    Arc::new(Inner { cs, at: 0.into(), bad: std::sync::Mutex::new(None) })
}
impl Inner {
    fn hook(self: &Arc<Inner>) -> Arc<dyn Fn() + Send + Sync> {
        let me = self.clone();
        Arc::new(move || {
            let c = &me.cs[me.at.fetch_add(1, SeqCst) as usize % me.cs.len()];
            let cb = Cb::new(2, c.calls as usize);
            let r = (c.run)(&cb);
            cb.closed.store(1, SeqCst);
            let mut o = Outcome::default();
            if r.0.is_ok() { check_log(&mut o, c, &cb, &r.1, "called from a callback") } else if c.keys.as_ref().is_some_and(|k| !k.is_empty()) { o.fail("unexpected panic", format!("{} [{}] called from a callback", c.name, c.desc)) }
            if let Some(v) = o.viol { *me.bad.lock().unwrap() = Some(v) }
        })
    }
    fn show(&self) -> String { format!(" whose callbacks call {}", self.cs.iter().map(|c| format!("{} [{}]", c.name, c.desc)).collect::<Vec<_>>().join(", ")) }
    fn verdict(&self, o: &mut Outcome) { o.probe("calls made by callbacks", self.at.load(SeqCst)); if let Some((c, d)) = self.bad.lock().unwrap().take() { o.fail(&c, d) } }
}
pub fn plain(g: &mut G, kind: usize) -> Case {
    let c0 = g.cap; g.cap = 60;
    let c = case(g, Some(kind));
    g.cap = c0;
    crate::case::mk(c.name, c.desc.clone(), (), move |_| { let cb = Cb::new(4, c.calls as usize); let (r, o) = (c.run)(&cb); std::hint::black_box(o); if let Err(e) = r { std::panic::resume_unwind(e) } cb.n.load(SeqCst) })
}
/// A callback-taking call as a plain case for C10; `f` runs inside its callback.
pub fn around(g: &mut G, kind: usize) -> (String, Arc<dyn Fn(Arc<dyn Fn() + Send + Sync>) + Send + Sync>) {
    let c0 = g.cap; g.cap = 30;
    let c = case(g, Some(kind));
    g.cap = c0;
    (format!("{} [{}]", c.name, c.desc), Arc::new(move |f| { let mut cb = Cb::new(3, c.calls as usize); cb.hook = Some(f); let _ = std::hint::black_box((c.run)(&cb)); }))
}

/// The log against the elements (fault-free call).
fn check_log(o: &mut Outcome, c: &CbCase, cb: &Cb, out: &Out, whence: &str) {
    let who = format!("{} [{}] {whence}", c.name, c.desc);
    let n = cb.n.load(SeqCst);
    o.checks += 1;
    if c.seq && cb.max_active.load(SeqCst) > 1 { o.fail("concurrent invocations in a sequential variant", who.clone()) }
    if cb.late.load(SeqCst) > 0 { o.fail("callback invoked after return", who.clone()) }
    let Some(keys) = &c.keys else { return };
    if n != keys.len() as u64 { return o.fail("wrong number of invocations", format!("{who}: {n} invocations for {} elements", keys.len())) }
    let log: Vec<u64> = (0..n as usize).map(|i| cb.keys[i].load(SeqCst)).collect();
    let (mut a, mut b) = (log.clone(), keys.clone());
    a.sort_unstable(); b.sort_unstable();
    if a != b { return o.fail("wrong arguments", format!("{who}: the arguments passed are not the elements' values and coordinates")) }
    match out {
        Out::Tokens(t) => {
            if t.len() != keys.len() { return o.fail("wrong result size", format!("{who}: {} results for {} elements", t.len(), keys.len())) }
            let mut used = vec![false; t.len()];
            for (i, &tok) in t.iter().enumerate() {
                let k = tok.wrapping_sub(BASE) as usize;
                if k >= log.len() || used[k] || log[k] != keys[i] { return o.fail("result not from the element's invocation", format!("{who}: element {i} holds the result of invocation {k}")) }
                used[k] = true;
            }
        }
        Out::Flags(f) => {
            let at: std::collections::BTreeMap<u64, usize> = log.iter().enumerate().map(|(i, k)| (*k, i)).collect();
            for (i, &b) in f.iter().enumerate() { if (at[&keys[i]] % 2 == 1) != b { return o.fail("result not from the element's invocation", format!("{who}: element {i}")) } }
        }
        Out::None => {}
    }
}
/// After a panicking callback.
fn check_panic(o: &mut Outcome, c: &CbCase, cb: &Cb, ran: &Ran, whence: &str) {
    let who = format!("{} [{}] {whence}", c.name, c.desc);
    o.checks += 1;
    if cb.active.load(SeqCst) != 0 { o.fail("callback still running after return", who.clone()) }
    if cb.late.load(SeqCst) > 0 { o.fail("callback invoked after return", who.clone()) }
    let raised = cb.raised.load(SeqCst);
    if raised > 0 { o.probe("callback panics", raised); if raised > 1 { o.probe("several workers panicking", 1) } }
    match &ran.0 {
        Ok(()) if raised > 0 => o.fail("panic lost", format!("{who}: the callback panicked {raised} time(s) but the call returned normally")),
        Err(e) if !cb.own(&**e) => { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("payload of unknown type".into()); o.fail("foreign panic", format!("{who}: the caller got a panic that its callback did not raise: {m}")) }
        _ => {}
    }
    if let (Some(old), Out::Tokens(t)) = (&c.old, &ran.1) {
        let keys = c.keys.as_ref().unwrap();
        if t.len() != old.len() { return o.fail("in-place image resized", who) }
        let mut used = std::collections::BTreeSet::new();
        for i in 0..t.len() {
            if t[i] == old[i] { continue }
            let k = t[i].wrapping_sub(BASE) as usize;
            let n = cb.n.load(SeqCst) as usize;
            if t[i] < BASE || k >= n || k >= cb.keys.len() || cb.keys[k].load(SeqCst) != keys[i] || !used.insert(k) { return o.fail("half-modified image", format!("{who}: element {i} is {} which is neither its old value {} nor what its invocation returned", t[i] as i64 - BASE as i64, old[i])) }
        }
    }
}
fn digest_of(o: &mut Outcome, ran: &Ran, cb: &Cb) { let mut d = Dig(o.digest); d.u64(ran.0.is_ok() as u64); d.u64(cb.n.load(SeqCst)); if let Out::Tokens(t) = &ran.1 { for x in t { d.u64(*x as u64) } } o.digest = d.get(); }

pub fn c09(s: &Spec) -> Plan {
    let mut g = gen(s);
    let mut r = s.rng(2);
    let n = r.pick(&[1, 1, 2, 3]);
    let cs: Vec<CbCase> = (0..n).map(|i| { g.reseed(sub(s.seed, 100 + i)); case(&mut g, None) }).filter(|c| c.keys.is_some()).collect();
    let cx: Vec<Ctx> = cs.iter().map(|_| ctx(&mut r)).collect();
    let conc = r.chance(1, 2);
    let keep: Vec<usize> = (0..cs.len()).filter(|i| s.kept(*i)).collect();
    let total = cs.len();
    let inn = if r.chance(1, 3) && !cs.is_empty() { let c = &cs[r.usize(0, cs.len() - 1)]; g.reseed(sub(s.seed, 300)); Some(inner(&mut g, c.kind)) } else { None };
    let desc = format!("{}{} contexts {cx:?} concurrent={conc}", inn.as_ref().map_or(String::new(), |x| x.show()), keep.iter().map(|&i| format!("{} [{}]", cs[i].name, cs[i].desc)).collect::<Vec<_>>().join("; "));
    Plan { refs: vec![], items: total, desc, io: None, go: Box::new(move |_| {
        let mut o = Outcome::default();
        let hk = inn.as_ref().map(|x| x.hook());
        let one = move |c: CbCase, x: Ctx, hk: &Option<Arc<dyn Fn() + Send + Sync>>| in_ctx(x, &|| { let mut cb = Cb::new(1, c.calls as usize); cb.hook = hk.clone(); let r = (c.run)(&cb); cb.closed.store(1, SeqCst); (cb, r) });
        let mut all = vec![];
        if conc && keep.len() > 1 {
            let fs = keep.iter().map(|&i| { let c = cs[i].clone(); let x = cx[i]; let hk = hk.clone(); Box::new(move || one(c, x, &hk)) as Box<dyn FnOnce() -> Vec<(Cb, Ran)> + Send> }).collect();
            for (k, res) in on_threads(fs).into_iter().enumerate() { all.push((keep[k], res.unwrap())) }
        } else { for &i in &keep { all.push((i, one(cs[i].clone(), cx[i], &hk))) } }
        for (i, rs) in all {
            for (cb, ran) in rs {
                digest_of(&mut o, &ran, &cb);
                o.probe(cs[i].name, 1);
                match &ran.0 { Ok(()) => check_log(&mut o, &cs[i], &cb, &ran.1, &format!("in context {:?}", cx[i])), Err(_) => { if cs[i].keys.as_ref().is_some_and(|k| !k.is_empty()) { o.fail("unexpected panic", format!("{} [{}] in context {:?}", cs[i].name, cs[i].desc, cx[i])) } } }
            }
        }
        if let Some(x) = &inn { x.verdict(&mut o) }
        o
    }) }
}

pub fn c08(s: &Spec) -> Plan {
    let mut g = gen(s);
    let mut r = s.rng(2);
    let n = r.pick(&[1, 1, 2, 3]);
    let mut cs = vec![]; let mut pan: Vec<(Vec<u64>, u64, u64)> = vec![];
    for i in 0..n {
        g.reseed(sub(s.seed, 100 + i));
        let c = case(&mut g, None);
        let m = c.calls.max(1);
        let mut at: Vec<u64> = (0..r.pick(&[1, 1, 2, 3])).map(|_| match r.below(5) { 0 => 0, 1 => m - 1, _ => r.below(m) }).collect();
        if r.chance(1, 8) { at.clear() }
        let from = if r.chance(1, 5) { r.below(m) } else { u64::MAX };
        pan.push((at, from, r.below(3)));
        cs.push(c);
    }
    let cx: Vec<Ctx> = cs.iter().map(|_| ctx(&mut r)).collect();
    let conc = r.chance(1, 2);
    // later calls, compared with the same calls alone
    let ops = all_ops();
    let later: Vec<Case> = (0..2).map(|i| { let op = pick_op(&mut r, &ops, |o| !is(o, RANDOM) && is(o, PAR)); g.reseed(sub(s.seed, 200 + i)); let c = g.cap; g.cap = c.min(3000); let x = (op.make)(&mut g); g.cap = c; x }).collect();
    let keep: Vec<usize> = (0..cs.len()).filter(|i| s.kept(*i)).collect();
    let total = cs.len();
    let inn = if r.chance(1, 4) { let c = &cs[r.usize(0, cs.len() - 1)]; g.reseed(sub(s.seed, 300)); Some(inner(&mut g, c.kind)) } else { None };
    let desc = format!("{}{} contexts {cx:?} concurrent={conc}; later {}", inn.as_ref().map_or(String::new(), |x| x.show()), keep.iter().map(|&i| format!("{} [{}] panicking at {:?} from {}", cs[i].name, cs[i].desc, pan[i].0, pan[i].1 as i64)).collect::<Vec<_>>().join("; "), lines(&later));
    Plan { refs: later.clone(), items: total, desc, io: None, go: Box::new(move |rf| {
        let mut o = Outcome::default();
        let hk = inn.as_ref().map(|x| x.hook());
        let one = |i: usize, c: CbCase, x: Ctx, p: (Vec<u64>, u64, u64), hk: Option<Arc<dyn Fn() + Send + Sync>>| in_ctx(x, &|| {
            let mut cb = Cb::new(1000 + i as u64, c.calls as usize);
            cb.panics = p.0.clone(); cb.all_from = p.1; cb.form = p.2; cb.hook = hk.clone();
            let r = (c.run)(&cb); cb.closed.store(1, SeqCst);
            let cb = Arc::new(cb); (cb, r)
        });
        let mut all = vec![];
        if conc && keep.len() > 1 {
            let fs = keep.iter().map(|&i| { let c = cs[i].clone(); let (x, p, hk) = (cx[i], pan[i].clone(), hk.clone()); Box::new(move || one(i, c, x, p, hk)) as Box<dyn FnOnce() -> Vec<(Arc<Cb>, Ran)> + Send> }).collect();
            for (k, res) in on_threads(fs).into_iter().enumerate() { all.push((keep[k], res.unwrap())) }
        } else { for &i in &keep { all.push((i, one(i, cs[i].clone(), cx[i], pan[i].clone(), hk.clone()))) } }
        for (i, rs) in &all {
            for (cb, ran) in rs {
                let w = format!("in context {:?} panicking at {:?} from {}", cx[*i], pan[*i].0, pan[*i].1 as i64);
                digest_of(&mut o, ran, cb);
                o.probe(cs[*i].name, 1);
                // empty images may be rejected
                if ran.0.is_err() && cb.raised.load(SeqCst) == 0 && cs[*i].calls == 0 { o.probe("rejected empty image", 1); continue }
                check_panic(&mut o, &cs[*i], cb, ran, &w);
            }
        }
        if let Some(x) = &inn { x.verdict(&mut o) }
        // the pool and the library still work
        for (k, c) in later.iter().enumerate() { let d = c.exec(); if refs_of(rf, k).is_some() { compare(&mut o, "after a callback panicked", c, d, refs_of(rf, k)) } }
        for &i in &keep {
            let cb = Cb::new(1, cs[i].calls as usize); let r = (cs[i].run)(&cb); cb.closed.store(1, SeqCst);
            if r.0.is_ok() { check_log(&mut o, &cs[i], &cb, &r.1, "called again after its callback panicked") } else if cs[i].calls > 0 { o.fail("later call fails", format!("{} [{}] panics when called again after its callback panicked", cs[i].name, cs[i].desc)) }
        }
        for (i, rs) in &all { for (cb, _) in rs { if cb.late.load(SeqCst) > 0 { o.fail("callback invoked after return", format!("{} [{}]", cs[*i].name, cs[*i].desc)) } } }
        o
    }) }
}

/// A callback-taking call whose callback panics, as an event of a history (C04).
pub fn abort(g: &mut G) -> Case {
    let c0 = g.cap; g.cap = c0.min(1500);
    let c = case(g, None);
    g.cap = c0;
    let m = c.calls.max(1);
    let k = match g.r.below(4) { 0 => 0, 1 => m - 1, _ => g.r.below(m) };
    let form = g.r.below(3);
    let d = format!("{} panicking at {k}", c.desc);
    crate::case::mk(c.name, d, (), move |_| {
        let mut cb = Cb::new(77, c.calls as usize);
        cb.panics = vec![k]; cb.form = form;
        let (r, _) = (c.run)(&cb);
        match r { Ok(()) => 3, Err(e) => { let own = cb.own(&*e); std::mem::forget(e); if own { 5 } else if cb.raised.load(SeqCst) == 0 { 7 } else { 9 } } }
    })
}
