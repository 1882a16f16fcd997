//! Calls with unusual arguments: empty, one-pixel and very elongated images, parameters at and beyond their
//! documented range, callbacks and matrices producing NaN, infinite and huge coordinates. The outcome of such a call
//! is not judged (a panic is fine); what is judged is that it ends, and that it touches no memory it may not touch.
//! Parameters whose cost legitimately grows without bound (image sides, radii, line lengths) stay bounded.
use crate::case::{mk, Op, PAR, RANDOM, SEEDED};
use crate::cat::*;
use image::{GrayImage, ImageBuffer, Luma, Pixel, Rgb, Rgba, RgbaImage};
use imageproc::binary_descriptors::brief::{brief, BriefDescriptor, TestPair};
use imageproc::binary_descriptors::{match_binary_descriptors, BinaryDescriptor};
use imageproc::contrast::*;
use imageproc::corners::*;
use imageproc::definitions::Image;
use imageproc::distance_transform::*;
use imageproc::drawing::*;
use imageproc::filter::bilateral::GaussianEuclideanColorDistance;
use imageproc::filter::*;
use imageproc::geometric_transformations::*;
use imageproc::geometry::*;
use imageproc::haar::*;
use imageproc::hog::*;
use imageproc::hough::*;
use imageproc::kernel::{self, Kernel};
use imageproc::map::*;
use imageproc::morphology::*;
use imageproc::point::Point;
use imageproc::rect::{Rect, Region};
use imageproc::region_labelling::*;
use imageproc::seam_carving::*;
use imageproc::suppress::*;
use imageproc::template_matching::*;
use imageproc::{compose, contours, edges, gradients, image_hash, integral_image, local_binary_patterns, noise, pixelops, stats, union_find, utils};
use simbase::digest::{dig, Dig, Digest, PrimDig};
use simbase::gen::{Sample, G};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn di<P: Pixel>(x: &Image<P>) -> u64 where P::Subpixel: PrimDig { dig(x) }
/// Empty, minimal, small and elongated sizes.
pub fn odims(g: &mut G) -> (u32, u32) {
    let r = &mut g.r;
    match r.below(16) {
        0 => (0, 0), 1 => (0, r.u32(1, 40)), 2 => (r.u32(1, 40), 0), 3 => (1, 1), 4 => (1, r.u32(1, 12)), 5 => (r.u32(1, 12), 1),
        6 => (2, r.u32(1, 9)), 7 => (r.u32(1, 9), 2), 8 => (3, 3), 9 => (r.u32(1, 4), r.u32(1, 4)), 10 => (r.u32(1, 2), r.pick(&[257, 700, 1500])), 11 => (r.pick(&[257, 700, 1500]), r.u32(1, 2)),
        12 | 13 => (r.u32(3, 9), r.u32(3, 9)), _ => (r.u32(5, 40), r.u32(5, 40)),
    }
}
/// The same size, mostly; or one of equal area, one that differs by a row or column, or any.
fn other(g: &mut G, d: (u32, u32)) -> (u32, u32) {
    let (w, h) = d;
    match g.r.below(12) { 0 => (h, w), 1 => if w % 2 == 0 { (w / 2, h * 2) } else { (w * h, 1) }, 2 => (w + 1, h), 3 => (w, h.saturating_sub(1)), 4 => odims(g), _ => d }
}
fn oi<P: Pixel>(g: &mut G) -> Image<P> where P::Subpixel: Sample { let (w, h) = odims(g); g.img::<P>(w, h) }
fn gray(g: &mut G) -> GrayImage { oi::<Luma<u8>>(g) }
fn nd<P: Pixel>(im: &Image<P>) -> String { format!("{}x{}", im.width(), im.height()) }
/// Any u32, with the limits and their neighbours preferred.
fn any32(g: &mut G) -> u32 { let x = g.r.next() as u32; let s = g.r.u32(0, 50); g.r.pick(&[0, 1, 2, 3, s, s, u32::MAX, u32::MAX - 1, u32::MAX - 2, u32::MAX - 3, u32::MAX - 16, i32::MAX as u32, i32::MAX as u32 + 1, 65535, 65536, x]) }
/// A radius: small, larger than the image, or so large that arithmetic with it leaves the type.
fn rad(g: &mut G) -> u32 { let s = g.r.u32(0, 12); g.r.pick(&[0, 1, s, s, 40, 300, u32::MAX, u32::MAX - 1, u32::MAX - 2, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX - 40]) }
fn rad_small(g: &mut G) -> u32 { let s = g.r.u32(0, 12); g.r.pick(&[0, 1, s, s, 40, 300, 2000]) }
fn ext(g: &mut G, n: u32) -> i32 { match g.r.below(10) { 0 => i32::MAX, 1 => i32::MIN, 2 => i32::MAX - g.r.u32(0, 60) as i32, 3 => i32::MIN + g.r.u32(0, 60) as i32, 4 => g.r.pick(&[65536, -65536, 46341, 32768, 1 << 24]), _ => g.coord(n) } }
/// Not so extreme that a shape around it wraps around (which makes its rows billions of pixels long).
fn mid(g: &mut G, n: u32) -> i32 { ext(g, n).clamp(-(1 << 30), 1 << 30) }
pub fn wild(g: &mut G) -> f32 {
    let s = g.r.f32(-20.0, 60.0);
    g.r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, -0.0, 0.0, f32::MIN_POSITIVE, 1e-42, 4294967296.0, 2147483648.0, -2147483649.0, 2147483520.0, 1e9, -1e9, 0.5, -0.5, -1.0, s, s, s])
}
fn tame(g: &mut G) -> f32 { let s = g.r.f32(-20.0, 60.0); g.r.pick(&[0.0, 1.0, -1.0, 0.5, s, s]) }
fn mixf(g: &mut G) -> f32 { if g.r.chance(1, 3) { wild(g) } else { tame(g) } }
fn dres<T: std::fmt::Debug>(x: &T) -> u64 { dig(&format!("{x:?}")) }
/// Coordinates produced by a mapping callback: a deterministic mixture of ordinary and wild ones, keyed by the position.
fn wild_map(seed: u64, w: u32, h: u32, plain: u64) -> impl Fn(f32, f32) -> (f32, f32) + Sync + Send + Copy {
    move |x, y| {
        let mut r = simbase::rng::Rng::new(simbase::rng::sub(seed, (x.to_bits() as u64) << 32 | y.to_bits() as u64));
        let mut one = |n: u32, v: f32| { let n = n as f32; if r.chance(plain, 10) { return v } let e = r.f32(-2.0, 2.0); r.pick(&[f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e10, -1e10, 4294967296.0, 4294967040.0, 2147483648.0, -0.0, -1e-30, -0.5, -0.5000001, n, n - 1.0, n - 0.5, n - 0.50001, n - 2.0, n - 3.0, n - 1.5, n + 1.0, n / 2.0, 0.5, 1.0, 1.5, 2.0, e, n + e, 16777216.0]) };
        (one(w, x), one(h, y))
    }
}
struct Nd<T>(T);
impl<T> Digest for Nd<T> { fn dig(&self, d: &mut Dig) { d.u64(0) } }
fn warp_any<P>(g: &mut G, name: &'static str) -> crate::case::Case
where P: Pixel + Send + Sync + 'static, P::Subpixel: Sample + PrimDig + Send + Sync + imageproc::definitions::Clamp<f32> + Into<f32> {
    let im = oi::<P>(g); let (ow, oh) = odims(g); let s = g.r.next(); let i = interp(g); let def = *P::from_slice(&vec![P::Subpixel::from01(0.25, &mut g.r); P::CHANNEL_COUNT as usize]);
    let k = g.r.below(5); let plain = g.r.pick(&[0, 5, 9]);
    let m: [f32; 9] = std::array::from_fn(|j| if g.r.chance(1, 4) { wild(g) } else if j % 4 == 0 { g.r.f32(0.2, 2.0) } else { g.r.f32(-0.5, 0.5) });
    let (cx, cy, t) = (mixf(g), mixf(g), mixf(g));
    mk(name, format!("{} -> {ow}x{oh} {i:?} #{k} seed {s:x} plain {plain} matrix {m:?} ({cx},{cy},{t})", nd(&im)), im, move |im| match k {
        0 => di(&warp_with(im, wild_map(s, im.width(), im.height(), plain), i, def)),
        1 => { let mut o: Image<P> = ImageBuffer::from_pixel(ow, oh, def); warp_into_with(im, wild_map(s, im.width(), im.height(), plain), i, def, &mut o); di(&o) }
        2 => match Projection::from_matrix(m) { Some(p) => { let mut o: Image<P> = ImageBuffer::from_pixel(ow, oh, def); warp_into(im, &p, i, def, &mut o); let mut d = Dig::new(); d.add(&o).add(&warp(im, &p.invert(), i, def)); d.get() } None => 0 },
        3 => { let p = Projection::translate(cx, cy) * Projection::rotate(t) * Projection::scale(cy, cx); di(&warp(im, &p, i, def)) }
        _ => { let mut d = Dig::new(); d.add(&rotate(im, (cx, cy), t, i, def)).add(&rotate_about_center(im, t, i, def)); d.get() }
    })
}
pub fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    macro_rules! op { ($name:expr, $tags:expr, $w:expr, $f:expr) => { v.push(Op { name: $name, tags: $tags, weight: $w, make: $f }); }; }
    // ---- geometric transformations
    op!("odd warp<Luma8>", PAR, 5, |g| warp_any::<Luma<u8>>(g, "odd warp<Luma8>"));
    op!("odd warp<Rgb8>", PAR, 3, |g| warp_any::<Rgb<u8>>(g, "odd warp<Rgb8>"));
    op!("odd warp<LumaF32>", PAR, 3, |g| warp_any::<Luma<f32>>(g, "odd warp<LumaF32>"));
    op!("odd warp<Rgba16>", PAR, 2, |g| warp_any::<Rgba<u16>>(g, "odd warp<Rgba16>"));
    op!("odd control points", PAR, 2, |g| { let im = gray(g); let p = |g: &mut G| -> [(f32, f32); 4] { let k = g.r.below(4); let a = (tame(g), tame(g)); std::array::from_fn(|_| match k { 0 => a, 1 => (mixf(g), mixf(g)), _ => (tame(g), tame(g)) }) }; let (a, b) = (p(g), p(g)); let i = interp(g); mk("odd control points", format!("{} {a:?} {b:?}", nd(&im)), im, move |im| match Projection::from_control_points(a, b) { Some(p) => di(&warp(im, &p, i, Luma([7]))), None => 0 }) });
    op!("odd translate/rotate90", 0, 2, |g| { let im = gray(g); let t = (ext(g, im.width()), ext(g, im.height())); let k = g.r.below(5); mk("odd translate/rotate90", format!("{} {t:?} #{k}", nd(&im)), im, move |im| match k { 0 => di(&rotate90(im)), 1 => di(&rotate180(im)), 2 => di(&rotate270(im)), _ => di(&translate(im, t)) }) });
    // ---- filters
    op!("odd box_filter", 0, 3, |g| { let im = gray(g); let (a, b) = (rad_small(g), rad_small(g)); mk("odd box_filter", format!("{} r {a},{b}", nd(&im)), im, move |im| di(&box_filter(im, a, b))) });
    op!("odd median_filter", 0, 4, |g| { let im = gray(g); let (a, b) = (rad(g), rad(g)); let (a, b) = if a <= 2000 && b <= 2000 && (a as u64 * 2 + 1) * (b as u64 * 2 + 1) * (im.width() as u64 + 1) > 2_000_000 { (a.min(9), b.min(9)) } else { (a, b) }; mk("odd median_filter", format!("{} r {a},{b}", nd(&im)), im, move |im| di(&median_filter(im, a, b))) });
    op!("odd median_filter<Rgba8>", 0, 1, |g| { let im = oi::<Rgba<u8>>(g); let (a, b) = (g.r.u32(0, 9), g.r.u32(0, 9)); mk("odd median_filter<Rgba8>", format!("{} r {a},{b}", nd(&im)), im, move |im| di(&median_filter(im, a, b))) });
    op!("odd bilateral", 0, 2, |g| { let im = oi::<Rgb<u8>>(g); let r = g.r.pick(&[0u8, 1, 2, 5, 9]); let r = if im.width() * im.height() > 600 { r.min(2) } else { r }; let (a, b) = (wild(g), wild(g)); mk("odd bilateral", format!("{} r {r} {a} {b}", nd(&im)), im, move |im| di(&bilateral_filter(im, r, a, GaussianEuclideanColorDistance::new(b)))) });
    op!("odd kernels", 0, 4, |g| { let im = gray(g); let (kw, kh) = g.r.pick(&[(1, 1), (1, 9), (9, 1), (2, 2), (4, 3), (40, 1), (1, 40), (17, 17), (0, 0), (0, 3), (3, 0), (65536, 65536), (3, 0x5555_5556), (1 << 31, 2), (1 << 20, 1 << 12)]); let n = kw as u64 * kh as u64; let n = if g.r.chance(1, 12) { 5 } else if n > 100_000 { (n as u32) as u64 } else { n }; let k: Vec<i32> = (0..n).map(|i| i as i32 % 7 - 3).collect();
        mk("odd kernels", format!("{} kernel {kw}x{kh} of {n}", nd(&im)), (im, k), move |(im, k)| { di(&filter::<_, _, _, Luma<i16>>(im, Kernel::new(k, kw, kh), |x| x as i16)) }) });
    op!("odd 1d kernels", 0, 4, |g| { let im = gray(g); let n = g.r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 40, 41, 700, 1500]); let n = if n * (im.width() * im.height()) as usize > 400_000 { 41 } else { n }; let n2 = if g.r.chance(1, 8) { n + 1 } else { n }; let k: Vec<f32> = (0..n).map(|i| (i % 5) as f32 - 1.5).collect(); let k2: Vec<f32> = (0..n2).map(|i| (i % 3) as f32 - 0.5).collect(); let m = g.r.below(4); mk("odd 1d kernels", format!("{} {n} {n2} #{m}", nd(&im)), (im, k, k2), move |(im, k, k2)| match m { 0 => di(&horizontal_filter(im, k)), 1 => di(&vertical_filter(im, k)), 2 => di(&separable_filter(im, k, k2)), _ => di(&separable_filter_equal(im, k)) }) });
    op!("odd 1d kernels<Rgb8>", 0, 2, |g| { let im = oi::<Rgb<u8>>(g); let n = g.r.usize(0, 44); let k: Vec<i32> = (0..n).map(|i| (i % 5) as i32 - 1).collect(); let m = g.r.below(2); mk("odd 1d kernels<Rgb8>", format!("{} {n} #{m}", nd(&im)), (im, k), move |(im, k)| match m { 0 => di(&horizontal_filter(im, k)), _ => di(&vertical_filter(im, k)) }) });
    op!("odd gaussian", 0, 2, |g| { let im = gray(g); let s = g.r.pick(&[0.0, -1.0, f32::NAN, f32::INFINITY, 1e-30, f32::MIN_POSITIVE, 0.01, 50.0, 200.0]); let a = wild(g); let k = g.r.below(2); mk("odd gaussian", format!("{} {s} {a}", nd(&im)), im, move |im| if k == 0 { di(&gaussian_blur_f32(im, s)) } else { di(&sharpen_gaussian(im, s, a)) }) });
    op!("odd fixed filters", 0, 2, |g| { let im = gray(g); let k = g.r.below(8); mk("odd fixed filters", format!("{} #{k}", nd(&im)), im, move |im| match k { 0 => di(&laplacian_filter(im)), 1 => di(&sharpen3x3(im)), 2 => di(&gradients::sobel_gradients(im)), 3 => di(&gradients::horizontal_sobel(im)), 4 => di(&gradients::vertical_prewitt(im)), 5 => di(&gradients::prewitt_gradients(im)), 6 => di(&gradients::gradients(im, kernel::ROBERTS_HORIZONTAL_2X2, kernel::ROBERTS_VERTICAL_2X2, |p: Luma<u16>| p)), _ => di(&gradients::gradients(im, kernel::SCHARR_HORIZONTAL_3X3, kernel::ROBERTS_VERTICAL_2X2, |p: Luma<u16>| p)) }) });
    // ---- edges, corners, lines, descriptors
    op!("odd canny", 0, 5, |g| { let im = gray(g); let (a, b) = if g.r.chance(1, 2) { (wild(g), wild(g)) } else { let lo = g.r.pick(&[0.0, -0.0, -1.0, -1e9, 1e-30, 3.0]); (lo, lo + g.r.f32(0.0, 50.0)) }; mk("odd canny", format!("{} {a} {b}", nd(&im)), im, move |im| di(&edges::canny(im, a, b))) });
    op!("odd fast score", 0, 3, |g| { let im = gray(g); let near = |g: &mut G, n: u32| { let k = g.r.u32(0, 6); if g.r.chance(1, 2) { n.wrapping_add(k).wrapping_sub(4) } else { any32(g) } }; let (x, y) = (near(g, im.width()), near(g, im.height())); let t = g.r.pick(&[0, 1, 254, 255, 30]); let n = g.r.chance(1, 2); mk("odd fast score", format!("{} ({x},{y}) t{t} {n}", nd(&im)), im, move |im| dig(&fast_corner_score(im, t, x, y, if n { Fast::Nine } else { Fast::Twelve }))) });
    op!("odd corners", 0, 3, |g| { let im = gray(g); let t = g.r.pick(&[0, 1, 254, 255, 20]); let n = g.r.chance(1, 2); mk("odd corners", format!("{} t{t} {n}", nd(&im)), im, move |im| dcorners(&if n { corners_fast9(im, t) } else { corners_fast12(im, t) })) });
    op!("odd oriented_fast", SEEDED, 4, |g| { let im = if g.r.chance(1, 2) { gray(g) } else { let (w, h) = (g.r.u32(20, 60), g.r.u32(20, 60)); g.img(w, h) }; let e = any32(g); let e = if g.r.chance(1, 2) { g.r.u32(0, 18) } else { e }; let n = g.r.pick(&[0, 1, 3, 100, usize::MAX, usize::MAX / 2, 1 << 40]); let t = g.r.pick(&[Some(0), Some(1), Some(255), Some(20), None]); let s = g.seed(); mk("odd oriented_fast", format!("{} t{t:?} n{n} e{e} seed {s}", nd(&im)), im, move |im| dofast(&oriented_fast(im, t, n, e, Some(s)))) });
    op!("odd brief", 0, 5, |g| { let (w, h) = g.r.pick(&[(33, 33), (34, 34), (35, 35), (40, 36), (60, 33), (31, 31), (1, 1), (0, 0), (0, 40)]); let im = g.img::<Luma<u8>>(w, h); let len = g.r.pick(&[128usize, 128, 128, 256, 0, 1, 127]); let far = g.r.below(4); let c = |g: &mut G| match far { 0 => g.r.u32(0, 30), 1 => g.r.u32(0, 80), 2 => if g.r.chance(1, 20) { any32(g) } else { g.r.u32(0, 30) }, _ => g.r.u32(0, 36) };
        let ps: Vec<TestPair> = (0..len).map(|_| TestPair { p0: Point::new(c(g), c(g)), p1: Point::new(c(g), c(g)) }).collect(); let n = g.r.usize(0, 5); let kx = |g: &mut G, n: u32| match g.r.below(4) { 0 => any32(g), 1 => n.wrapping_sub(g.r.u32(14, 18)), _ => g.r.u32(14, n.max(34) - 15) }; let ks: Vec<Point<u32>> = (0..n).map(|_| Point::new(kx(g, w), kx(g, h))).collect(); let ov = g.r.chance(5, 6);
        mk("odd brief", format!("{w}x{h} len {len} far {far} keypoints {ks:?} pairs {ov}"), (im, Nd((ps, ks))), move |(im, k)| if ov { match brief(im, &k.0 .1, len, Some(&k.0 .0)) { Ok((d, _)) => dig(&Descs(d)), Err(e) => dig(&e) } } else { brief(im, &k.0 .1, len, None).is_ok() as u64 + 7 }) });
    op!("odd descriptors", SEEDED, 3, |g| { let (ca, cb) = (g.r.usize(0, 3), g.r.usize(0, 3)); let cb = if g.r.chance(2, 3) { ca } else { cb }; let mkd = |g: &mut G, c: usize| -> Vec<BriefDescriptor> { let n = g.r.usize(0, 8); (0..n).map(|i| BriefDescriptor { bits: (0..c).map(|_| g.r.pick(&[0u128, u128::MAX, 5, 1 << 127])).collect(), corner: Corner::new(i as u32, 0, 0.0) }).collect() }; let (a, b) = (mkd(g, ca), mkd(g, cb)); let t = any32(g); let s = g.seed(); let idx: Vec<u32> = (0..g.r.usize(0, 140)).map(|_| g.r.u32(0, 400)).collect(); mk("odd descriptors", format!("{}({ca}) {}({cb}) t{t}", a.len(), b.len()), (Descs(a), Descs(b)), move |(a, b)| { let mut d = Dig::new(); d.add(&dmatches(&match_binary_descriptors(&a.0, &b.0, t, Some(s)))); if let (Some(x), Some(y)) = (a.0.first(), b.0.first()) { let h = catch_unwind(AssertUnwindSafe(|| (x.get_size(), x.hamming_distance(y)))); d.add(&h.is_ok()); d.add(&(x.get_bit_subset(&idx) as u64)); } d.get() }) });
    op!("odd local_binary_pattern", 0, 3, |g| { let im = gray(g); let pts: Vec<(u32, u32)> = (0..20).map(|_| (any32(g), any32(g))).chain((0..40).map(|i| (i % 7, i / 7))).collect(); mk("odd local_binary_pattern", format!("{} {pts:?}", nd(&im)), im, move |im| { let mut d = Dig::new(); for &(x, y) in &pts { d.add(&local_binary_patterns::local_binary_pattern(im, x, y)); } d.get() }) });
    op!("odd haar", 0, 3, |g| { let (fw, fh) = g.r.pick(&[(0u8, 0u8), (0, 4), (1, 1), (2, 2), (255, 1), (1, 255), (3, 60), (8, 8), (24, 3)]); let (w, h) = (g.r.u32(0, 26), g.r.u32(0, 26)); let im = g.img::<Luma<u32>>(w, h); let small = g.img::<Luma<u8>>(w.min(9), h.min(9)); let st = g.r.usize(1, 60); mk("odd haar", format!("{w}x{h} frame {fw}x{fh} step {st}"), (im, small), move |(im, small)| { let fs = enumerate_haar_features(fw, fh); let mut d = Dig::new(); d.add(&fs.len()); for f in fs.iter().step_by(st).take(400) { d.add(&catch_unwind(AssertUnwindSafe(|| f.evaluate(im))).ok()); } if let Some(f) = fs.last() { if let Ok(i) = catch_unwind(AssertUnwindSafe(|| draw_haar_feature(small, *f))) { d.add(&i); } } d.get() }) });
    op!("odd hog", 0, 3, |g| { let o = |g: &mut G| HogOptions { orientations: g.r.pick(&[0, 1, 2, 3, 9, 64]), signed: g.r.chance(1, 2), cell_side: g.r.pick(&[0, 1, 2, 3, 5, 8]), block_side: g.r.pick(&[0, 1, 2, 3, 7]), block_stride: g.r.pick(&[0, 1, 2, 3, 4]) }; let (o1, o2) = (o(g), o(g)); let im = gray(g); let (w2, h2) = odims(g); let st = g.r.u32(0, 9); mk("odd hog", format!("{} {o1:?}; {w2}x{h2} {o2:?}", nd(&im)), im, move |im| { let mut d = Dig::new(); if let Ok(x) = catch_unwind(AssertUnwindSafe(|| hog(im, o1))) { match x { Ok(x) => { d.f32s(&x); } Err(e) => { d.add(&e); } } } if let Ok(Ok(s)) = catch_unwind(|| HogSpec::from_options(w2, h2, o2)) { if let Ok(mut c) = catch_unwind(AssertUnwindSafe(|| cell_histograms(im, s))) { if w2.max(h2) > 60 { return d.get() } if let Ok(i) = catch_unwind(AssertUnwindSafe(|| render_hist_grid(st, &c.view_mut(), o2.signed))) { d.add(&i); } } } d.get() }) });
    op!("odd detect_lines", 0, 3, |g| { let im = gray(g); let o = LineDetectionOptions { vote_threshold: g.r.pick(&[0, 1, 2, 9, u32::MAX]), suppression_radius: g.r.pick(&[0, 1, 5, 100, 3000, u32::MAX, u32::MAX - 1, i32::MAX as u32]) }; mk("odd detect_lines", format!("{} {o:?}", nd(&im)), im, move |im| { let l = detect_lines(im, o); let mut d = Dig::new(); for x in &l { d.add(&x.r).add(&x.angle_in_degrees); } d.get() }) });
    op!("odd polar lines", 0, 3, |g| { let im = gray(g); let n = g.r.usize(0, 4); let ls: Vec<PolarLine> = (0..n).map(|_| PolarLine { r: mixf(g), angle_in_degrees: g.r.pick(&[0, 1, 45, 89, 90, 91, 135, 179, 180]) }).collect(); let bad = any32(g); mk("odd polar lines", format!("{} {ls:?}", nd(&im)), im, move |im| { let mut d = Dig::new(); d.add(&draw_polar_lines(im, &ls, Luma([9]))); for l in &ls { d.add(&dres(&intersection_points(*l, bad, im.height()))); } d.get() }) });
    op!("odd hash/extremes", 0, 2, |g| { let im = oi::<Luma<f32>>(g); let k = g.r.below(2); let nan = g.r.chance(1, 2); mk("odd hash/extremes", format!("{} #{k} {nan}", nd(&im)), im, move |im| { let mut im = im.clone(); if nan { if let Some(p) = im.pixels_mut().last() { *p = Luma([f32::NAN]) } } if k == 0 { dres(&image_hash::phash(&im)) } else { let e = find_extremes(&im); dig(&(e.max_value_location, e.min_value_location)) } }) });
    // ---- integral images, suppression
    op!("odd sums", 0, 4, |g| { let im = gray(g); let c = |g: &mut G, n: u32| if g.r.chance(1, 3) { any32(g) } else { g.r.u32(0, n + 2) }; let (l, t, r, b) = (c(g, im.width()), c(g, im.height()), c(g, im.width()), c(g, im.height())); mk("odd sums", format!("{} {l},{t},{r},{b}", nd(&im)), im, move |im| { let a: Image<Luma<u32>> = integral_image::integral_image(im); let q: Image<Luma<u32>> = integral_image::integral_squared_image(im); let mut d = Dig::new(); d.add(&catch_unwind(AssertUnwindSafe(|| integral_image::sum_image_pixels(&a, l, t, r, b)[0])).ok()); d.add(&catch_unwind(AssertUnwindSafe(|| integral_image::variance(&a, &q, l, t, r, b).to_bits())).ok()); d.get() }) });
    op!("odd running sums", 0, 4, |g| { let im = gray(g); let (w, h) = im.dimensions(); let at = |g: &mut G, n: u32| if g.r.chance(1, 3) { any32(g) } else { g.r.u32(0, n) }; let (row, col) = (at(g, h), at(g, w)); let pad = g.r.pick(&[0, 1, 5, 100, u32::MAX, i32::MAX as u32 + 1, u32::MAX / 2]); let sh = g.r.pick(&[0i64, 0, 0, 1, -1, 30, -1000]); let n = |d: u32| (d as i64 + 2 * (pad.min(200)) as i64 + sh).max(0) as usize; let (na, nb) = (n(w), n(h)); mk("odd running sums", format!("{w}x{h} row {row} col {col} pad {pad} buffers {na} {nb}"), im, move |im| { let (mut a, mut b) = (vec![5u32; na], vec![6u32; nb]); let x = catch_unwind(AssertUnwindSafe(|| integral_image::row_running_sum(im, row, &mut a, pad))).is_ok(); let y = catch_unwind(AssertUnwindSafe(|| integral_image::column_running_sum(im, col, &mut b, pad))).is_ok(); dig(&((x as u32, y as u32), (a, b))) }) });
    op!("odd suppress", 0, 3, |g| { let im = gray(g); let r = rad(g); let im2 = oi::<Luma<i32>>(g); mk("odd suppress", format!("{} {} r{r}", nd(&im), nd(&im2)), (im, im2), move |(im, im2)| { let mut d = Dig::new(); d.add(&suppress_non_maximum(im, r)).add(&suppress_non_maximum(im2, r)); d.get() }) });
    op!("odd local_maxima", 0, 3, |g| { let n = g.r.usize(0, 30); let cs: Vec<Corner> = (0..n).map(|_| Corner::new(if g.r.chance(1, 4) { any32(g) } else { g.r.u32(0, 50) }, g.r.u32(0, 60), mixf(g))).collect(); let r = g.r.pick(&[0, 1, 5, 100, 1000, i32::MAX as u32]); mk("odd local_maxima", format!("{n} r{r} {cs:?}"), Nd(cs), move |cs| dcorners(&local_maxima(&cs.0, r))) });
    // ---- contrast, stats
    op!("odd contrast", 0, 4, |g| { let (im, im2) = (gray(g), gray(g)); let k = g.r.below(9); let t = g.u8(); let (a, b, c, e) = (g.u8(), g.u8(), g.u8(), g.u8()); let r = g.r.pick(&[0, 1, 7, 500, 5000, u32::MAX, i32::MAX as u32, u32::MAX - 1]); let dl = g.r.pick(&[0, i32::MIN, i32::MAX, -300]); mk("odd contrast", format!("{} {} #{k} {t} {a} {b} {c} {e} r{r}", nd(&im), nd(&im2)), (im, im2), move |(im, im2)| match k { 0 => di(&equalize_histogram(im)), 1 => di(&match_histogram(im, im2)), 2 => dig(&otsu_level(im)), 3 => dig(&kapur_level(im)), 4 => di(&stretch_contrast(im, a, b, c, e)), 5 => di(&adaptive_threshold(im, r, dl)), 6 => dig(&stats::percentile(im, t)), 7 => dig(&stats::min_max(im).len()), _ => dig(&stats::peak_signal_to_noise_ratio(im, im2).to_bits()) }) });
    op!("odd stats", 0, 2, |g| { let (im, im2) = (gray(g), gray(g)); let k = g.r.below(3); mk("odd stats", format!("{} {} #{k}", nd(&im), nd(&im2)), (im, im2), move |(im, im2)| match k { 0 => dig(&stats::root_mean_squared_error(im, im2).to_bits()), 1 => dres(&stats::histogram(im).channels.len()), _ => dres(&stats::cumulative_histogram(im2).channels[0].to_vec()) }) });
    // ---- templates
    op!("odd match_template", 0, 4, |g| { let (im, t) = (gray(g), gray(g)); let (t, m) = if g.r.chance(1, 3) { (g.img(im.width(), im.height()), g.img(im.width(), im.height())) } else { let (w, h) = other(g, t.dimensions()); let big = t.width() as u64 * t.height() as u64 > 400; let t = if big { g.img(3, 2) } else { t }; let (w, h) = if big { g.r.pick(&[(3, 2), (3, 2), (2, 3), (6, 1)]) } else { (w, h) }; (t, g.img::<Luma<u8>>(w, h)) }; let me = method(g); let k = g.r.below(2); mk("odd match_template", format!("{} {} {} {me:?} #{k}", nd(&im), nd(&t), nd(&m)), (im, t, m), move |(im, t, m)| if k == 0 { di(&match_template(im, t, me)) } else { di(&match_template_with_mask(im, t, me, m)) }) });
    #[cfg(feature = "par")]
    op!("odd match_template_parallel", PAR, 3, |g| { let (im, t) = (gray(g), gray(g)); let t = if t.width() as u64 * t.height() as u64 > 400 { g.img(2, 3) } else { t }; let (w, h) = other(g, t.dimensions()); let m = g.img::<Luma<u8>>(w, h); let me = method(g); let k = g.r.below(2); mk("odd match_template_parallel", format!("{} {} {} {me:?} #{k}", nd(&im), nd(&t), nd(&m)), (im, t, m), move |(im, t, m)| if k == 0 { di(&match_template_parallel(im, t, me)) } else { di(&match_template_with_mask_parallel(im, t, me, m)) }) });
    #[cfg(feature = "par")]
    op!("odd parallel filters/maps", PAR, 4, |g| { let im = oi::<Rgb<u8>>(g); let k = g.r.below(7); let kw = g.r.u32(1, 9); let kh = g.r.u32(1, 9); let kv: Vec<i32> = (0..kw * kh).map(|i| i as i32 % 5 - 2).collect(); let c = CropRect { x: any32(g), y: any32(g), width: any32(g), height: any32(g) }; mk("odd parallel filters/maps", format!("{} #{k} {kw}x{kh} {c:?}", nd(&im)), (im, kv), move |(im, kv)| match k { 0 => di(&filter_parallel::<_, _, _, Rgb<i16>>(im, Kernel::new(kv, kw, kh), |x| x as i16)), 1 => di(&filter_clamped_parallel::<_, i32, i16>(im, Kernel::new(kv, kw, kh))), 2 => di(&map_subpixels_parallel::<_, _, u8>(im, |x| !x)), 3 => di(&map_pixels_parallel(im, |p: Rgb<u8>| Luma([p.0[0]]))), 4 => di(&map_enumerated_pixels_parallel(im, |x, y, p: Rgb<u8>| Luma([x as u8 ^ y as u8 ^ p.0[0]]))), 5 => di(&compose::crop_parallel(im, c)), _ => { let mut m = im.clone(); map_pixels_mut_parallel(&mut m, |p| p); map_enumerated_pixels_mut_parallel(&mut m, |_, _, p| p); map_subpixels_mut_parallel(&mut m, |p| !p); di(&m) } }) });
    // ---- composition, maps
    op!("odd compose", 0, 4, |g| { let (im, top) = (oi::<Rgba<u8>>(g), oi::<Rgba<u8>>(g)); let c = |g: &mut G, n: u32| if g.r.chance(1, 3) { any32(g) } else { g.r.u32(0, n + 1) }; let r = CropRect { x: c(g, im.width()), y: c(g, im.height()), width: c(g, im.width()), height: c(g, im.height()) }; let (x, y) = (c(g, im.width()), c(g, im.height())); let k = g.r.below(5); mk("odd compose", format!("{} {} #{k} {r:?} ({x},{y})", nd(&im), nd(&top)), (im, top), move |(im, top)| match k { 0 => di(&compose::crop(im, r)), 1 => di(&compose::flip_horizontal(im)), 2 => di(&compose::flip_vertical(im)), 3 => di(&compose::replace(im, top, x, y)), _ => di(&compose::overlay(im, top, x, y)) }) });
    op!("odd map2/diffs", 0, 3, |g| { let (a, b) = (gray(g), gray(g)); let b = if g.r.chance(1, 2) { g.img(a.width(), a.height()) } else { b }; let k = g.r.below(4); mk("odd map2/diffs", format!("{} {} #{k}", nd(&a), nd(&b)), (a, b), move |(a, b)| match k { 0 => di(&map_pixels2(a, b, |p: Luma<u8>, q: Luma<u8>| Luma([p.0[0] ^ q.0[0]]))), 1 => dig(&utils::pixel_diff_summary(a, b)), 2 => dig(&utils::describe_pixel_diffs(a, b, &utils::pixel_diffs(a, b, |p, q| p.2 != q.2))), _ => { let c: Vec<utils::Diff<Luma<u8>>> = vec![]; dig(&utils::describe_pixel_diffs(a, b, &c)) } }) });
    // ---- morphology, distances, labels, contours
    op!("odd morphology", 0, 3, |g| { let im = gray(g); let n = norm(g); let k = g.r.pick(&[0u8, 1, 7, 254, 255]); let f = g.r.below(6); mk("odd morphology", format!("{} {n:?} {k} #{f}", nd(&im)), im, move |im| match f { 0 => di(&dilate(im, n, k)), 1 => di(&erode(im, n, k)), 2 => di(&open(im, n, k)), 3 => di(&close(im, n, k)), 4 => di(&distance_transform(im, n)), _ => di(&euclidean_squared_distance_transform(im)) }) });
    op!("odd grayscale morphology", 0, 3, |g| { let im = if g.r.chance(1, 2) { gray(g) } else { let (w, h) = (g.r.u32(1, 7), g.r.u32(1, 7)); g.img(w, h) }; let (mw, mh) = g.r.pick(&[(0, 0), (1, 1), (3, 3), (1, 30), (30, 1), (511, 1), (1, 511), (512, 1), (1, 512), (0, 4)]); let mi = g.img::<Luma<u8>>(mw, mh); let blank = g.r.chance(1, 4); let (cx, cy) = (g.r.pick(&[0u8, 1, 2, 255, 29]), g.r.pick(&[0u8, 1, 2, 255, 29])); let k = g.r.below(3); let r = g.r.pick(&[0u8, 1, 6, 20]); let f = g.r.below(4); mk("odd grayscale morphology", format!("{} mask {mw}x{mh}@{cx},{cy} blank {blank} #{k} r{r} f{f}", nd(&im)), (im, mi), move |(im, mi)| { let m = match k { 0 => Mask::from_image(&if blank { ImageBuffer::new(mi.width(), mi.height()) } else { mi.clone() }, cx, cy), 1 => Mask::disk(r), _ => if blank { Mask::square(r.min(9)) } else { Mask::diamond(r) } }; match f { 0 => di(&grayscale_dilate(im, &m)), 1 => di(&grayscale_erode(im, &m)), 2 => di(&grayscale_open(im, &m)), _ => di(&grayscale_close(im, &m)) } }) });
    op!("odd components", 0, 3, |g| { let im = gray(g); let c = if g.r.chance(1, 2) { Connectivity::Four } else { Connectivity::Eight }; let b = g.r.pick(&[0u8, 255, 3]); mk("odd components", format!("{} {b}", nd(&im)), im, move |im| di(&connected_components(im, c, Luma([b])))) });
    op!("odd contours", 0, 4, |g| { let im = gray(g); let t = g.r.pick(&[0u8, 1, 100, 254, 255]); let bin = g.r.chance(2, 3); mk("odd contours", format!("{} t{t} bin {bin}", nd(&im)), im, move |im| { let im = if bin { map_subpixels::<_, _, u8>(im, |v| if v > 120 { 255 } else { 0 }) } else { im.clone() }; let mut d = Dig::new(); for c in contours::find_contours_with_threshold::<i32>(&im, t) { d.add(&c.points.len()).add(&c.parent.unwrap_or(usize::MAX)); for p in &c.points { d.add(&p.x).add(&p.y); } } for c in contours::find_contours::<u8>(&im) { d.add(&c.points.len()); } d.get() }) });
    op!("odd union_find", 0, 2, |g| { let n = g.r.usize(0, 6); let us: Vec<(usize, usize)> = (0..9).map(|_| (g.r.pick(&[0, 1, n, n.wrapping_sub(1), usize::MAX, n + 1]), g.r.pick(&[0, 1, n, n.wrapping_sub(1), 2]))).collect(); mk("odd union_find", format!("{n} {us:?}"), (), move |_| { let mut f = union_find::DisjointSetForest::new(n); let mut d = Dig::new(); for &(a, b) in &us { d.add(&catch_unwind(AssertUnwindSafe(|| f.union(a, b))).is_ok()); d.add(&catch_unwind(AssertUnwindSafe(|| f.root(a))).ok()); d.add(&catch_unwind(AssertUnwindSafe(|| f.find(a, b))).ok()); } d.add(&f.num_trees()); d.add(&f.trees()); d.get() }) });
    // ---- seam carving
    op!("odd seam carving", 0, 4, |g| { let im = gray(g); let t = if g.r.chance(1, 4) { let t = any32(g); if im.width() > 100 && t < im.width() { im.width() - t % 30 } else { t } } else { let w = im.width().saturating_sub(g.r.u32(0, 3)); w }; let other = gray(g); let k = g.r.below(3); mk("odd seam carving", format!("{} -> {t} other {} #{k}", nd(&im), nd(&other)), (im, other), move |(im, other)| match k { 0 => di(&shrink_width(im, t)), 1 => { let s = find_vertical_seam(im); di(&remove_vertical_seam(other, &s)) } _ => { let s = find_vertical_seam(im); let mut d = Dig::new(); d.add(&remove_vertical_seam(im, &s)); d.add(&draw_vertical_seams(other, &[s])); d.get() } }) });
    // ---- noise
    op!("odd noise", SEEDED, 2, |g| { let im = oi::<Rgb<u8>>(g); let k = g.r.below(2); let pick = |g: &mut G| g.r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, 1e300, 5e-324, 0.5, 2.0, 40.0]); let (a, b) = (pick(g), pick(g)); let s = g.seed(); mk("odd noise", format!("{} #{k} {a} {b} seed {s}", nd(&im)), im, move |im| if k == 0 { di(&noise::gaussian_noise(im, a, b, s)) } else { di(&noise::salt_and_pepper_noise(im, a, s)) }) });
    op!("odd random", RANDOM, 2, |g| { let im = gray(g); let e = any32(g); let n = g.r.pick(&[0, 1, 100]); let k = g.r.below(2); mk("odd random", format!("{} e{e} n{n} #{k}", nd(&im)), im, move |im| { if k == 0 { let c = oriented_fast(im, None, n, e, None); (c.len() <= n) as u64 } else { let d: Vec<BriefDescriptor> = vec![]; match_binary_descriptors(&d, &d, e, None).len() as u64 } }) });
    // ---- drawing
    op!("odd draw shapes", 0, 8, |g| { let im = oi::<Rgba<u8>>(g); let s = odd_shape(g, im.width(), im.height()); let c = Rgba([9, 200, 30, 120]); let k = g.r.below(3); mk("odd draw shapes", format!("{} {s:?} #{k}", nd(&im)), im, move |im| match k { 0 => { let mut x = im.clone(); s.draw_mut(&mut x, c); di(&x) } 1 => { let mut x = Blend(im.clone()); s.draw_mut(&mut x, c); di(&x.0) } _ => di(&s.draw_copy(im, c)) }) });
    op!("odd antialiased", 0, 5, |g| { let im: RgbaImage = oi::<Rgba<u8>>(g); let (w, h) = im.dimensions(); let base = (ext(g, w), ext(g, h)); let n = g.r.usize(2, 6); let at = |b: i32, d: i64| (b as i64 + d).clamp(i32::MIN as i64, i32::MAX as i64) as i32; let sp = g.r.pick(&[3i64, 60, 400]); let ps: Vec<Point<i32>> = (0..n).map(|i| if i == 0 { Point::new(base.0, base.1) } else { Point::new(at(base.0, g.r.range(-sp, sp)), at(base.1, g.r.range(-sp, sp))) }).collect(); let k = g.r.below(3); let c = Rgba([9, 200, 30, 120]); mk("odd antialiased", format!("{w}x{h} {ps:?} #{k}"), im, move |im| match k { 0 => di(&draw_antialiased_line_segment(im, (ps[0].x, ps[0].y), (ps[1].x, ps[1].y), c, pixelops::interpolate)), 1 => di(&draw_antialiased_polygon(im, &ps, c, pixelops::interpolate)), _ => { let mut x = im.clone(); draw_antialiased_line_segment_mut(&mut x, (ps[0].x, ps[0].y), (ps[1].x, ps[1].y), c, |_, q: Rgba<u8>, w: f32| if w.is_nan() { q } else { Rgba([w as u8, 0, 0, 0]) }); di(&x) } }) });
    op!("odd flood_fill", 0, 3, |g| { let im = gray(g); let (x, y) = (if g.r.chance(1, 3) { any32(g) } else { g.r.u32(0, im.width()) }, if g.r.chance(1, 3) { any32(g) } else { g.r.u32(0, im.height()) }); let c = g.r.pick(&[0u8, 255, 7]); let flat = g.r.chance(1, 2); mk("odd flood_fill", format!("{} ({x},{y}) {c} flat {flat}", nd(&im)), im, move |im| { let im = if flat { ImageBuffer::from_pixel(im.width(), im.height(), Luma([c])) } else { im.clone() }; di(&flood_fill(&im, x, y, Luma([c]))) }) });
    op!("odd bresenham", 0, 4, |g| { let im = gray(g); let b = (fext(g), fext(g)); let o = |g: &mut G, v: f32| if g.r.chance(1, 8) { v } else { v + g.r.f32(-90.0, 90.0) }; let e = if b.0.abs() > 1e8 || b.1.abs() > 1e8 { (near(g, b.0), near(g, b.1)) } else { (o(g, b.0), o(g, b.1)) }; let k = g.r.below(3); mk("odd bresenham", format!("{} {b:?} {e:?} #{k}", nd(&im)), im, move |im| { let mut d = Dig::new(); match k { 0 => for p in BresenhamLineIter::new(b, e) { d.add(&p); }, 1 => for p in BresenhamLinePixelIter::new(im, b, e) { d.add(&p.0[0]); }, _ => { let mut c = im.clone(); for p in BresenhamLinePixelIterMut::new(&mut c, b, e) { p.0[0] = p.0[0].wrapping_add(1) } d.add(&c); } } d.get() }) });
    op!("odd text", 0, 2, |g| { let im = oi::<Rgba<u8>>(g); let s = g.r.pick(&[0.0, -1.0, -20.0, 0.01, 1e-30, 300.0, f32::NAN]); let t = g.r.pick(&["", "A", "\u{0}", "\u{10FFFF}", "a\nb\tc", "ﬃ", "\u{202e}abc", "W"]); let (x, y) = (ext(g, im.width()), ext(g, im.height())); mk("odd text", format!("{} ({x},{y}) scale {s} {t:?}", nd(&im)), im, move |im| { let mut d = Dig::new(); d.add(&text_size(s, &font(), t)); d.add(&draw_text(im, Rgba([1, 2, 3, 255]), x, y, s, &font(), t)); d.get() }) });
    // ---- geometry, rectangles
    op!("odd geometry", 0, 4, |g| { let n = g.r.usize(0, 12); let flat = g.r.below(3); let ps: Vec<Point<i32>> = (0..n).map(|_| match flat { 0 => Point::new(3, 4), 1 => { let k = g.r.range(-5, 5) as i32; Point::new(k, 2 * k) } _ => Point::new(ext(g, 20), ext(g, 20)) }).collect(); let e = g.r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, 1e-300, 2.0]); let cl = g.r.chance(1, 2); let k = g.r.below(5); mk("odd geometry", format!("{ps:?} {e} {cl} #{k}"), (), move |_| { let mut d = Dig::new(); match k { 0 => { for p in convex_hull(&ps[..]) { d.add(&p.x).add(&p.y); } } 1 => { for p in min_area_rect(&ps) { d.add(&p.x).add(&p.y); } } 2 => { for p in approximate_polygon_dp(&ps, e, cl) { d.add(&p.x).add(&p.y); } } 3 => { d.add(&arc_length(&ps, cl).to_bits()); } _ => { d.add(&contour_area(&ps).to_bits()).add(&oriented_contour_area(&ps).to_bits()); } } d.get() }) });
    op!("odd rects", 0, 2, |g| { let r = |g: &mut G| (ext(g, 30), ext(g, 30), any32(g), any32(g)); let (a, b) = (r(g), r(g)); let p = (ext(g, 30), ext(g, 30)); mk("odd rects", format!("{a:?} {b:?} {p:?}"), (), move |_| { let (x, y) = (Rect::at(a.0, a.1).of_size(a.2, a.3), Rect::at(b.0, b.1).of_size(b.2, b.3)); let mut d = Dig::new(); d.add(&x.contains(p.0, p.1)).add(&y.contains(p.0 as f32, p.1 as f32)).add(&dres(&x.intersect(y))).add(&x.right()).add(&x.bottom()); d.get() }) });
    op!("odd bench images", 0, 1, |g| { let (w, h) = odims(g); mk("odd bench images", format!("{w}x{h}"), (), move |_| { let mut d = Dig::new(); d.add(&utils::gray_bench_image(w, h)).add(&utils::rgb_bench_image(w, h)).add(&utils::luma32f_bench_image(w, h)); d.get() }) });
    v
}
fn fext(g: &mut G) -> f32 { let s = g.r.f32(-20.0, 60.0); g.r.pick(&[2147483648.0, 2147483520.0, -2147483648.0, 2147483392.0, f32::NAN, s, s, s, 1e4]) }
/// Within a few representable steps of `v`, so that the line stays short.
fn near(g: &mut G, v: f32) -> f32 { if v.abs() <= 1e8 || v.is_nan() { return if v.is_nan() { g.r.f32(-60.0, 60.0) } else { v + g.r.f32(-90.0, 90.0) } } let mut b = v.to_bits(); let k = g.r.u32(0, 4); if g.r.chance(1, 2) { b += k } else { b -= k } f32::from_bits(b) }
fn odd_shape(g: &mut G, w: u32, h: u32) -> Shape {
    let big = |g: &mut G| g.r.pick(&[1u32, 2, 40, 65535, 65536, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX]);
    match g.r.below(12) {
        0 => { let b = (fext(g), fext(g)); let e = (near(g, b.0), near(g, b.1)); Shape::Line(b, e) }
        1 => { let b = (fext(g), fext(g)); let e = (near(g, b.0), near(g, b.1)); Shape::Line(e, b) }
        2 => { let c = |g: &mut G| if g.r.chance(1, 6) { f32::NAN } else { g.r.f32(-30.0, 60.0) }; Shape::Bezier(std::array::from_fn(|_| (c(g), c(g)))) }
        3 => Shape::FRect(ext(g, w), ext(g, h), big(g), big(g)),
        4 => { let (x, y) = (g.coord(w), g.coord(h)); Shape::HRect(x, y, g.r.u32(1, 3000), g.r.u32(1, 3000)) }
        // radii whose squares leave the 32-bit range, as thin ellipses
        5 => { let s = g.r.pick(&[0, 1, 2, -1, -3]); let l = g.r.pick(&[46340, 46341, 65535, 65536, 65537, 92682, 131072]); if g.r.chance(1, 2) { Shape::HEllipse(g.coord(w), g.coord(h), s, l) } else { Shape::HEllipse(g.coord(w), g.coord(h), l, s) } }
        6 => { let (a, b) = (g.r.pick(&[0, 1, -1, -7, 30, -300]), g.r.pick(&[0, 1, -1, -7, 30, i32::MIN])); Shape::FEllipse(mid(g, w), ext(g, h), a, b) }
        7 => Shape::HCircle(ext(g, w), ext(g, h), g.r.pick(&[0, 1, -1, 40, i32::MIN, 300])),
        8 => Shape::FCircle(mid(g, w), ext(g, h), g.r.pick(&[0, 1, -1, 40, i32::MIN, 100])),
        9 => Shape::Cross(ext(g, w), ext(g, h)),
        10 => { let n = g.r.usize(0, 7); let m = g.r.below(3); Shape::Poly((0..n).map(|_| match m { 0 => (g.coord(w), 3), 1 => (g.coord(w), g.coord(h)), _ => (g.r.pick(&[-3000, 3000, 5]), g.r.pick(&[-3000, 3000, 5])) }).collect()) }
        _ => { let n = g.r.usize(0, 5); Shape::HPoly((0..n).map(|_| (if g.r.chance(1, 8) { f32::NAN } else { g.fcoord(w) }, g.fcoord(h))).collect()) }
    }
}
