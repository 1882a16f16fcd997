//! Catalogue of library calls.
use crate::case::{mk, Op, EXPL, PAR, RANDOM, SEEDED};
use ab_glyph::FontRef;
use image::{GrayImage, ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba, RgbaImage};
use imageproc::binary_descriptors::brief::{brief, BriefDescriptor, TestPair};
use imageproc::binary_descriptors::{match_binary_descriptors, BinaryDescriptor};
use imageproc::corners::*;
use imageproc::definitions::Image;
use imageproc::distance_transform::*;
use imageproc::drawing::*;
use imageproc::filter::bilateral::{ColorDistance, GaussianEuclideanColorDistance};
use imageproc::filter::*;
use imageproc::geometric_transformations::*;
use imageproc::geometry::*;
use imageproc::haar::*;
use imageproc::hog::*;
use imageproc::hough::*;
use imageproc::kernel::Kernel;
use imageproc::map::*;
use imageproc::morphology::*;
use imageproc::point::Point;
use imageproc::rect::{Rect, Region};
use imageproc::region_labelling::*;
use imageproc::seam_carving::*;
use imageproc::suppress::*;
use imageproc::template_matching::*;
use imageproc::{binary_descriptors, compose, contours, contrast, edges, gradients, image_hash, integral_image, local_binary_patterns, math, noise, pixelops, stats, utils};
use simbase::digest::{dig, Dig, Digest, PrimDig};
use simbase::gen::G;
use std::fmt::Debug;
use std::sync::Arc;

pub static FONT: &[u8] = include_bytes!("../../DejaVuSans.ttf");
pub fn font() -> FontRef<'static> { FontRef::try_from_slice(FONT).unwrap() }

/// Debug-representation digest for small results.
fn dd<T: Debug>(x: &T) -> u64 { dig(&format!("{x:?}")) }
fn di<P: Pixel>(x: &Image<P>) -> u64 where P::Subpixel: PrimDig { dig(x) }
pub fn dcorners(cs: &[Corner]) -> u64 { let mut d = Dig::new(); for c in cs { d.add(&c.x).add(&c.y).add(&c.score); } d.add(&cs.len()); d.get() }
pub fn dofast(cs: &[OrientedFastCorner]) -> u64 { let mut d = Dig::new(); for c in cs { d.add(&c.corner.x).add(&c.corner.y).add(&c.corner.score).add(&c.orientation); } d.add(&cs.len()); d.get() }

macro_rules! op {
    ($v:ident, $name:expr, $tags:expr, $w:expr, $f:expr) => { $v.push(Op { name: $name, tags: $tags, weight: $w, make: $f }); };
}
const A1: u64 = 1_200_000; // very cheap per pixel
const A2: u64 = 120_000;
const A3: u64 = 20_000;
const A4: u64 = 3_000;
const A5: u64 = 700;

pub fn kernel_i32(g: &mut G, max: u32) -> (Vec<i32>, u32, u32) {
    let m = max.max(1);
    let (w, h) = if g.r.chance(6, 10) { (3.min(m), 3.min(m)) } else { (g.r.u32(1, m), g.r.u32(1, m)) };
    let n = (w * h) as usize;
    let style = g.r.below(4);
    let v = (0..n).map(|i| match style { 0 => g.r.range(-3, 3) as i32, 1 => 1, 2 => if i == n / 2 { n as i32 } else { -1 }, _ => g.r.range(-40, 40) as i32 }).collect();
    (v, w, h)
}
pub fn kernel_f32(g: &mut G, max: u32) -> (Vec<f32>, u32, u32) {
    let (v, w, h) = kernel_i32(g, max);
    let s = g.r.pick(&[1.0f32, 0.111, 0.04, 0.37]);
    (v.into_iter().map(|x| x as f32 * s).collect(), w, h)
}
pub type CropRect = image::math::Rect;
pub fn rect_in(g: &mut G, w: u32, h: u32) -> CropRect {
    let (w1, h1) = (w.max(1), h.max(1));
    let x = g.r.below(w1 as u64) as u32; let y = g.r.below(h1 as u64) as u32;
    let (mut width, mut height) = (g.r.u32(1, w1 - x), g.r.u32(1, h1 - y));
    if g.r.chance(1, 5) { return CropRect { x: 0, y: 0, width: w, height: h } }
    if g.r.chance(1, 12) { width = 0 }
    if g.r.chance(1, 20) { height = 0 }
    if g.r.chance(1, 20) { width += g.r.u32(1, 5) } // possibly invalid
    if g.r.chance(1, 20) { height += g.r.u32(1, 5) }
    CropRect { x, y, width, height }
}
pub fn any_rect(g: &mut G, w: u32, h: u32) -> Rect {
    let (x, y) = (g.coord(w), g.coord(h));
    Rect::at(x, y).of_size(g.r.u32(1, w.max(1) * 2), g.r.u32(1, h.max(1) * 2))
}
pub type Thunk<T> = Arc<dyn Fn() -> T + Send + Sync>;
/// A projection, built by the library inside the call under test.
pub fn projection(g: &mut G, w: u32, h: u32) -> (Thunk<Projection>, String) {
    let (fw, fh) = (w.max(1) as f32, h.max(1) as f32);
    let k = g.r.below(8);
    match k {
        0 => { let (a, b) = (g.r.f32(-fw, fw).round(), g.r.f32(-fh, fh).round()); (Arc::new(move || Projection::translate(a, b)), format!("translate({a},{b})")) }
        1 => { let t = g.theta(); (Arc::new(move || Projection::rotate(t)), format!("rotate({t})")) }
        2 => { let (a, b) = (g.r.f32(0.2, 4.0), g.r.f32(0.2, 4.0)); (Arc::new(move || Projection::scale(a, b)), format!("scale({a},{b})")) }
        3 => { let t = g.theta(); (Arc::new(move || Projection::translate(-fw / 2.0, -fh / 2.0).and_then(Projection::rotate(t)).and_then(Projection::translate(fw / 2.0, fh / 2.0))), format!("rot-center({t})")) }
        4 => { let m = [g.r.f32(0.3, 2.0), g.r.f32(-0.6, 0.6), g.r.f32(-9.0, 9.0), g.r.f32(-0.6, 0.6), g.r.f32(0.3, 2.0), g.r.f32(-9.0, 9.0), 0.0, 0.0, 1.0];
               (Arc::new(move || Projection::from_matrix(m).unwrap_or(Projection::translate(1.0, 2.0))), format!("affine{m:?}")) }
        5 | 6 => { let m = [g.r.f32(0.3, 2.0), g.r.f32(-0.6, 0.6), g.r.f32(-9.0, 9.0), g.r.f32(-0.6, 0.6), g.r.f32(0.3, 2.0), g.r.f32(-9.0, 9.0), g.r.f32(-0.02, 0.02), g.r.f32(-0.02, 0.02), 1.0];
               (Arc::new(move || Projection::from_matrix(m).unwrap_or(Projection::translate(1.0, 2.0))), format!("proj{m:?}")) }
        _ => { let j = |g: &mut G| g.r.f32(-0.3, 0.3);
               let from = [(0.0, 0.0), (fw, 0.0), (fw, fh), (0.0, fh)];
               let to = [(fw * j(g), fh * j(g)), (fw * (1.0 + j(g)), fh * j(g)), (fw * (1.0 + j(g)), fh * (1.0 + j(g))), (fw * j(g), fh * (1.0 + j(g)))];
               (Arc::new(move || Projection::from_control_points(from, to).unwrap_or(Projection::translate(0.5, 0.5))), format!("control{to:?}")) }
    }
}
pub fn interp(g: &mut G) -> Interpolation { g.r.pick(&[Interpolation::Nearest, Interpolation::Bilinear, Interpolation::Bicubic]) }
pub fn norm(g: &mut G) -> Norm { g.r.pick(&[Norm::L1, Norm::L2, Norm::LInf]) }
pub fn method(g: &mut G) -> MatchTemplateMethod { g.r.pick(&[MatchTemplateMethod::SumOfSquaredErrors, MatchTemplateMethod::SumOfSquaredErrorsNormalized, MatchTemplateMethod::CrossCorrelation, MatchTemplateMethod::CrossCorrelationNormalized]) }
pub fn template_pair(g: &mut G, area: u64, budget: u64) -> (Arc<GrayImage>, Arc<GrayImage>) {
    let im = g.gray(area);
    let (w, h) = im.dimensions();
    let n = (w as u64 * h as u64).max(1);
    let side = ((budget / n).max(1) as f64).sqrt() as u32;
    let lim = |g: &mut G, d: u32| { let m = d.max(1).min(side.max(1)); if g.r.chance(1, 6) { d.max(1).min(side * 3 + 1) } else { g.r.u32(1, m) } };
    let (mut tw, th) = (lim(g, w), lim(g, h));
    if g.r.chance(1, 20) { tw = w + 1 } // invalid
    let t = if g.r.chance(1, 3) && tw <= w && th <= h && w > 0 && h > 0 {
        let x = g.r.u32(0, w - tw); let y = g.r.u32(0, h - th);
        Arc::new(ImageBuffer::from_fn(tw, th, |i, j| *im.get_pixel(x + i, y + j)))
    } else { Arc::new(g.img::<Luma<u8>>(tw, th)) };
    (im, t)
}
pub fn mask_for(g: &mut G, t: &GrayImage) -> Arc<GrayImage> { Arc::new(if g.r.chance(1, 4) { ImageBuffer::from_pixel(t.width(), t.height(), Luma([255])) } else { g.img::<Luma<u8>>(t.width(), t.height()) }) }
pub fn points_i32(g: &mut G, n: usize, w: u32, h: u32) -> Vec<Point<i32>> { (0..n).map(|_| Point::new(g.coord(w), g.coord(h))).collect() }
fn dpi(ps: &[Point<i32>]) -> u64 { let mut d = Dig::new(); for p in ps { d.add(&p.x).add(&p.y); } d.add(&ps.len()); d.get() }
pub fn keypoints(g: &mut G, n: usize, w: u32, h: u32) -> Vec<Point<u32>> {
    (0..n).map(|_| Point::new(g.r.u32(16, w.max(34) - 17), g.r.u32(16, h.max(34) - 17))).collect()
}
pub fn test_pairs(g: &mut G, n: usize) -> Vec<TestPair> { (0..n).map(|_| { let mut p = || Point::new(g.r.below(31) as u32, g.r.below(31) as u32); TestPair { p0: p(), p1: p() } }).collect() }
pub fn descriptors(g: &mut G, n: usize, chunks: usize) -> Vec<BriefDescriptor> {
    let base: Vec<Vec<u128>> = (0..3).map(|_| (0..chunks).map(|_| (g.r.next() as u128) << 64 | g.r.next() as u128).collect()).collect();
    (0..n).map(|i| {
        let mut bits = g.r.pick(&base);
        let flips = g.r.pick(&[0u64, 1, 3, 10, 40]);
        for _ in 0..flips { let b = g.r.below(128 * chunks as u64) as usize; bits[b / 128] ^= 1u128 << (b % 128) }
        if g.r.chance(1, 3) { for b in bits.iter_mut() { *b = (g.r.next() as u128) << 64 | g.r.next() as u128 } }
        BriefDescriptor { bits, corner: Corner::new(i as u32, 2 * i as u32, 1.0) }
    }).collect()
}
pub struct Descs(pub Vec<BriefDescriptor>);
impl Digest for Descs { fn dig(&self, d: &mut Dig) { for x in &self.0 { for b in &x.bits { d.u64(*b as u64); d.u64((*b >> 64) as u64) } d.u64(x.corner.x as u64); } d.u64(self.0.len() as u64) } }
pub fn dmatches(m: &[(&BriefDescriptor, &BriefDescriptor)]) -> u64 { let mut d = Dig::new(); for (a, b) in m { d.add(&a.corner.x).add(&b.corner.x).add(&a.hamming_distance(b)); } d.add(&m.len()); d.get() }
pub fn warp_img<P>(im: &Image<P>, p: &Projection, i: Interpolation, d: P) -> u64 where P: Pixel + Send + Sync, P::Subpixel: PrimDig + Send + Sync + imageproc::definitions::Clamp<f32>, f32: From<P::Subpixel> , <P as Pixel>::Subpixel: Into<f32> { dig(&warp(im, p, i, d)) }
fn mask(g: &mut G) -> (Thunk<Mask>, String) {
    match g.r.below(4) {
        0 => { let k = g.r.below(5) as u8; (Arc::new(move || Mask::square(k)), format!("square({k})")) }
        1 => { let k = g.r.below(6) as u8; (Arc::new(move || Mask::diamond(k)), format!("diamond({k})")) }
        2 => { let k = g.r.below(6) as u8; (Arc::new(move || Mask::disk(k)), format!("disk({k})")) }
        _ => { let (w, h) = (g.r.u32(1, 7), g.r.u32(1, 7)); let im = g.img::<Luma<u8>>(w, h); let (cx, cy) = (g.r.below(w as u64) as u8, g.r.below(h as u64) as u8); (Arc::new(move || Mask::from_image(&im, cx, cy)), format!("mask {w}x{h}@{cx},{cy}")) }
    }
}
struct NoDig<T>(T);
impl<T> Digest for NoDig<T> { fn dig(&self, d: &mut Dig) { d.u64(0) } }

pub struct CountCanvas { pub im: RgbaImage }
impl Canvas for CountCanvas {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) { self.im.dimensions() }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> { *self.im.get_pixel(x, y) }
    fn draw_pixel(&mut self, x: u32, y: u32, c: Rgba<u8>) { self.im.put_pixel(x, y, c) }
}
/// A drawing request applicable to any canvas.
#[derive(Clone, Debug)]
pub enum Shape {
    Line((f32, f32), (f32, f32)), Bezier([(f32, f32); 4]), HRect(i32, i32, u32, u32), FRect(i32, i32, u32, u32),
    HEllipse(i32, i32, i32, i32), FEllipse(i32, i32, i32, i32), HCircle(i32, i32, i32), FCircle(i32, i32, i32),
    Cross(i32, i32), Poly(Vec<(i32, i32)>), HPoly(Vec<(f32, f32)>), Text(i32, i32, f32, String),
}
impl Shape {
    pub fn name(&self) -> &'static str {
        use Shape::*;
        match self { Line(..) => "line", Bezier(..) => "bezier", HRect(..) => "hollow_rect", FRect(..) => "filled_rect", HEllipse(..) => "hollow_ellipse", FEllipse(..) => "filled_ellipse", HCircle(..) => "hollow_circle", FCircle(..) => "filled_circle", Cross(..) => "cross", Poly(..) => "polygon", HPoly(..) => "hollow_polygon", Text(..) => "text" }
    }
    pub fn draw_mut<C: Canvas>(&self, c: &mut C, col: C::Pixel) where C::Pixel: 'static, <C::Pixel as Pixel>::Subpixel: Into<f32> + imageproc::definitions::Clamp<f32> {
        use Shape::*;
        match self {
            Line(a, b) => draw_line_segment_mut(c, *a, *b, col),
            Bezier(p) => draw_cubic_bezier_curve_mut(c, p[0], p[1], p[2], p[3], col),
            HRect(x, y, w, h) => draw_hollow_rect_mut(c, Rect::at(*x, *y).of_size(*w, *h), col),
            FRect(x, y, w, h) => draw_filled_rect_mut(c, Rect::at(*x, *y).of_size(*w, *h), col),
            HEllipse(x, y, a, b) => draw_hollow_ellipse_mut(c, (*x, *y), *a, *b, col),
            FEllipse(x, y, a, b) => draw_filled_ellipse_mut(c, (*x, *y), *a, *b, col),
            HCircle(x, y, r) => draw_hollow_circle_mut(c, (*x, *y), *r, col),
            FCircle(x, y, r) => draw_filled_circle_mut(c, (*x, *y), *r, col),
            Cross(x, y) => draw_cross_mut(c, col, *x, *y),
            Poly(ps) => { let v: Vec<Point<i32>> = ps.iter().map(|p| Point::new(p.0, p.1)).collect(); draw_polygon_mut(c, &v, col) }
            HPoly(ps) => { let v: Vec<Point<f32>> = ps.iter().map(|p| Point::new(p.0, p.1)).collect(); draw_hollow_polygon_mut(c, &v, col) }
            Text(x, y, s, t) => draw_text_mut(c, col, *x, *y, *s, &font(), t),
        }
    }
    pub fn draw_copy(&self, im: &RgbaImage, col: Rgba<u8>) -> RgbaImage {
        use Shape::*;
        match self {
            Line(a, b) => draw_line_segment(im, *a, *b, col),
            Bezier(p) => draw_cubic_bezier_curve(im, p[0], p[1], p[2], p[3], col),
            HRect(x, y, w, h) => draw_hollow_rect(im, Rect::at(*x, *y).of_size(*w, *h), col),
            FRect(x, y, w, h) => draw_filled_rect(im, Rect::at(*x, *y).of_size(*w, *h), col),
            HEllipse(x, y, a, b) => draw_hollow_ellipse(im, (*x, *y), *a, *b, col),
            FEllipse(x, y, a, b) => draw_filled_ellipse(im, (*x, *y), *a, *b, col),
            HCircle(x, y, r) => draw_hollow_circle(im, (*x, *y), *r, col),
            FCircle(x, y, r) => draw_filled_circle(im, (*x, *y), *r, col),
            Cross(x, y) => draw_cross(im, col, *x, *y),
            Poly(ps) => { let v: Vec<Point<i32>> = ps.iter().map(|p| Point::new(p.0, p.1)).collect(); draw_polygon(im, &v, col) }
            HPoly(ps) => { let v: Vec<Point<f32>> = ps.iter().map(|p| Point::new(p.0, p.1)).collect(); draw_hollow_polygon(&mut im.clone(), &v, col) }
            Text(x, y, s, t) => draw_text(im, col, *x, *y, *s, &font(), t),
        }
    }
}
pub fn shape(g: &mut G, w: u32, h: u32) -> Shape {
    let k = g.r.below(12);
    let m = (w.max(h) as i32 + 5).min(120);
    match k {
        0 => Shape::Line((g.fcoord(w), g.fcoord(h)), (g.fcoord(w), g.fcoord(h))),
        1 => Shape::Bezier([(g.fcoord(w), g.fcoord(h)), (g.fcoord(w), g.fcoord(h)), (g.fcoord(w), g.fcoord(h)), (g.fcoord(w), g.fcoord(h))]),
        2 => Shape::HRect(g.coord(w), g.coord(h), g.r.u32(1, w + 4), g.r.u32(1, h + 4)),
        3 => Shape::FRect(g.coord(w), g.coord(h), g.r.u32(1, w + 4), g.r.u32(1, h + 4)),
        4 => Shape::HEllipse(g.coord(w), g.coord(h), g.r.range(0, m as i64) as i32, g.r.range(0, m as i64) as i32),
        5 => Shape::FEllipse(g.coord(w), g.coord(h), g.r.range(0, m as i64) as i32, g.r.range(0, m as i64) as i32),
        6 => Shape::HCircle(g.coord(w), g.coord(h), g.r.range(0, m as i64) as i32),
        7 => Shape::FCircle(g.coord(w), g.coord(h), g.r.range(0, m as i64) as i32),
        8 => Shape::Cross(g.coord(w), g.coord(h)),
        9 => { let n = g.r.usize(3, 9); Shape::Poly((0..n).map(|_| (g.coord(w), g.coord(h))).collect()) }
        10 => { let n = g.r.usize(2, 9); Shape::HPoly((0..n).map(|_| (g.fcoord(w), g.fcoord(h))).collect()) }
        _ => { let t = g.r.pick(&["A", "ab", "Wj1", "hello, world", "äß", " ", "", "Tq|_"]).to_string(); Shape::Text(g.coord(w), g.coord(h), g.r.pick(&[4.0, 9.5, 13.0, 24.0, 40.0]), t) }
    }
}

pub fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    // ---- filters
    op!(v, "filter<Luma8,i32>", 0, 3, |g| { let im = g.gray(A3); let k = kernel_i32(g, 7); let d = format!("{}x{} kernel {}x{}", im.width(), im.height(), k.1, k.2);
        mk("filter<Luma8,i32>", d, (im, k), |(im, k)| di(&filter::<_, _, _, Luma<i16>>(im, Kernel::new(&k.0, k.1, k.2), |x| x.clamp(-32768, 32767) as i16))) });
    op!(v, "filter<Rgb8,f32>", 0, 2, |g| { let im = g.rgb(A4); let k = kernel_f32(g, 5); let d = format!("{}x{} kernel {}x{}", im.width(), im.height(), k.1, k.2);
        mk("filter<Rgb8,f32>", d, (im, k), |(im, k)| di(&filter::<_, _, _, Rgb<u8>>(im, Kernel::new(&k.0, k.1, k.2), |x| x.clamp(0.0, 255.0) as u8))) });
    op!(v, "filter_clamped", 0, 2, |g| { let im = g.gray(A3); let k = kernel_i32(g, 5); let d = format!("{}x{} kernel {}x{}", im.width(), im.height(), k.1, k.2);
        mk("filter_clamped", d, (im, k), |(im, k)| di(&filter_clamped::<_, _, i16>(im, Kernel::new(&k.0, k.1, k.2)))) });
    op!(v, "filter_parallel", EXPL | PAR, 2, |g| { let im = g.gray(A3); let k = kernel_i32(g, 5); let d = format!("{}x{} kernel {}x{}", im.width(), im.height(), k.1, k.2);
        mk("filter_parallel", d, (im, k), |(_im, _k)| { #[cfg(feature = "par")] { di(&filter_parallel::<_, _, _, Luma<i16>>(_im, Kernel::new(&_k.0, _k.1, _k.2), |x| x.clamp(-32768, 32767) as i16)) } #[cfg(not(feature = "par"))] { 0 } }) });
    op!(v, "gaussian_blur<Luma8>", 0, 4, |g| { let im = g.gray(A3); let s = g.sigma(); mk("gaussian_blur<Luma8>", format!("{}x{} sigma {s}", im.width(), im.height()), im, move |im| di(&gaussian_blur_f32(im, s))) });
    op!(v, "gaussian_blur<Rgb8>", 0, 2, |g| { let im = g.rgb(A4); let s = g.sigma(); mk("gaussian_blur<Rgb8>", format!("{}x{} sigma {s}", im.width(), im.height()), im, move |im| di(&gaussian_blur_f32(im, s))) });
    op!(v, "gaussian_blur<LumaF32>", 0, 2, |g| { let im = g.any::<Luma<f32>>(A3); let s = g.sigma(); mk("gaussian_blur<LumaF32>", format!("{}x{} sigma {s}", im.width(), im.height()), im, move |im| di(&gaussian_blur_f32(im, s))) });
    op!(v, "separable_filter", 0, 2, |g| { let im = g.gray(A3); let a = kernel_f32(g, 7).0; let b = kernel_f32(g, 7).0; mk("separable_filter", format!("{}x{} {} {}", im.width(), im.height(), a.len(), b.len()), (im, a, b), |(im, a, b)| di(&separable_filter(im, a, b))) });
    op!(v, "separable_filter_equal", 0, 1, |g| { let im = g.rgb(A4); let a = kernel_f32(g, 5).0; mk("separable_filter_equal", format!("{}x{} {}", im.width(), im.height(), a.len()), (im, a), |(im, a)| di(&separable_filter_equal(im, a))) });
    op!(v, "horizontal_filter", 0, 2, |g| { let im = g.gray(A2); let a = kernel_i32(g, 9).0; mk("horizontal_filter", format!("{}x{} k{}", im.width(), im.height(), a.len()), (im, a), |(im, a)| di(&horizontal_filter(im, a))) });
    op!(v, "vertical_filter", 0, 2, |g| { let im = g.gray(A2); let a = kernel_i32(g, 9).0; mk("vertical_filter", format!("{}x{} k{}", im.width(), im.height(), a.len()), (im, a), |(im, a)| di(&vertical_filter(im, a))) });
    op!(v, "box_filter", 0, 3, |g| { let im = g.gray(A2); let (a, b) = (g.radius(9), g.radius(9)); mk("box_filter", format!("{}x{} r {a},{b}", im.width(), im.height()), im, move |im| di(&box_filter(im, a, b))) });
    op!(v, "median_filter<Luma8>", 0, 3, |g| { let im = g.gray(A3); let (a, b) = (g.radius(5), g.radius(5)); mk("median_filter<Luma8>", format!("{}x{} r {a},{b}", im.width(), im.height()), im, move |im| di(&median_filter(im, a, b))) });
    op!(v, "median_filter<Rgb8>", 0, 2, |g| { let im = g.rgb(A4); let (a, b) = (g.radius(4), g.radius(4)); mk("median_filter<Rgb8>", format!("{}x{} r {a},{b}", im.width(), im.height()), im, move |im| di(&median_filter(im, a, b))) });
    op!(v, "bilateral<Luma8>", 0, 3, |g| { let im = g.gray(A4); let r = g.radius(3) as u8; let (a, b) = (g.sigma() * 8.0, g.sigma()); mk("bilateral<Luma8>", format!("{}x{} r{r} {a} {b}", im.width(), im.height()), im, move |im| di(&bilateral_filter(&**im, r, b, GaussianEuclideanColorDistance::new(a)))) });
    op!(v, "bilateral<Rgb8>", 0, 2, |g| { let im = g.rgb(A5); let r = g.radius(3) as u8; let (a, b) = (g.sigma() * 8.0, g.sigma()); mk("bilateral<Rgb8>", format!("{}x{} r{r} {a} {b}", im.width(), im.height()), im, move |im| di(&bilateral_filter(&**im, r, b, GaussianEuclideanColorDistance::new(a)))) });
    op!(v, "GaussianEuclideanColorDistance", 0, 1, |g| { let s = g.sigma(); let (a, b) = ([g.u8(), g.u8(), g.u8()], [g.u8(), g.u8(), g.u8()]); mk("GaussianEuclideanColorDistance", format!("{s} {a:?} {b:?}"), (), move |_| dig(&GaussianEuclideanColorDistance::new(s).color_distance(&Rgb(a), &Rgb(b)))) });
    op!(v, "laplacian_filter", 0, 2, |g| { let im = g.gray(A3); mk("laplacian_filter", format!("{}x{}", im.width(), im.height()), im, |im| di(&laplacian_filter(im))) });
    op!(v, "sharpen3x3", 0, 1, |g| { let im = g.gray(A3); mk("sharpen3x3", format!("{}x{}", im.width(), im.height()), im, |im| di(&sharpen3x3(im))) });
    op!(v, "sharpen_gaussian", 0, 2, |g| { let im = g.gray(A3); let (s, a) = (g.sigma(), g.r.f32(0.0, 3.0)); mk("sharpen_gaussian", format!("{}x{} {s} {a}", im.width(), im.height()), im, move |im| di(&sharpen_gaussian(im, s, a))) });
    // ---- gradients, edges, corners
    op!(v, "sobel/scharr/prewitt", 0, 3, |g| { let im = g.gray(A3); let k = g.r.below(8); mk("sobel/scharr/prewitt", format!("{}x{} #{k}", im.width(), im.height()), im, move |im| match k {
        0 => di(&gradients::horizontal_sobel(im)), 1 => di(&gradients::vertical_sobel(im)), 2 => di(&gradients::horizontal_scharr(im)), 3 => di(&gradients::vertical_scharr(im)),
        4 => di(&gradients::horizontal_prewitt(im)), 5 => di(&gradients::vertical_prewitt(im)), 6 => di(&gradients::sobel_gradients(im)), _ => di(&gradients::prewitt_gradients(im)) }) });
    op!(v, "sobel_gradient_map", 0, 1, |g| { let im = g.rgb(A4); mk("sobel_gradient_map", format!("{}x{}", im.width(), im.height()), im, |im| di(&gradients::sobel_gradient_map(im, |p: Rgb<u16>| Luma([p.0[0].max(p.0[1]).max(p.0[2])])))) });
    op!(v, "gradients_grayscale", 0, 1, |g| { let im = g.gray(A3); let mkk = |g: &mut G| { let v: Vec<i32> = (0..9).map(|_| g.r.range(-5, 5) as i32).collect(); v }; let (a, b) = (mkk(g), mkk(g)); mk("gradients_grayscale", format!("{}x{}", im.width(), im.height()), (im, a, b), |(im, a, b)| di(&gradients::gradients_grayscale(im, Kernel::new(a, 3, 3), Kernel::new(b, 3, 3)))) });
    op!(v, "canny", 0, 3, |g| { let im = g.gray(A3); let lo = g.r.f32(1.0, 200.0); let hi = lo + g.r.f32(0.0, 300.0); mk("canny", format!("{}x{} {lo} {hi}", im.width(), im.height()), im, move |im| di(&edges::canny(im, lo, hi))) });
    op!(v, "corners_fast", 0, 3, |g| { let im = g.gray(A3); let t = g.u8() / 2; let n = g.r.chance(1, 2); mk("corners_fast", format!("{}x{} t{t}", im.width(), im.height()), im, move |im| dcorners(&if n { corners_fast9(im, t) } else { corners_fast12(im, t) })) });
    op!(v, "fast_corner_score", 0, 1, |g| { let im = g.gray(A3); let (w, h) = im.dimensions(); let t = g.u8() / 3; let x = g.r.u32(3, w.max(7) - 4); let y = g.r.u32(3, h.max(7) - 4); let n = g.r.chance(1, 2);
        mk("fast_corner_score", format!("{w}x{h} ({x},{y}) t{t}"), im, move |im| if x + 3 < im.width() && y + 3 < im.height() { dig(&fast_corner_score(im, t, x, y, if n { Fast::Nine } else { Fast::Twelve })) } else { 0 }) });
    op!(v, "oriented_fast(threshold)", 0, 2, |g| { let im = g.gray(A3); let t = g.u8() / 2; let n = g.r.usize(0, 60); let e = g.r.u32(16, 20); mk("oriented_fast(threshold)", format!("{}x{} t{t} n{n} e{e}", im.width(), im.height()), im, move |im| dofast(&oriented_fast(im, Some(t), n, e, None))) });
    op!(v, "oriented_fast(seed)", SEEDED, 3, |g| { let (w, h) = (g.r.u32(33, 110), g.r.u32(33, 110)); let im = Arc::new(g.img::<Luma<u8>>(w, h)); let s = g.seed(); let n = g.r.usize(0, 60); let e = g.r.u32(16, 20); mk("oriented_fast(seed)", format!("{w}x{h} seed {s} n{n} e{e}"), im, move |im| dofast(&oriented_fast(im, None, n, e, Some(s)))) });
    op!(v, "oriented_fast(random)", RANDOM, 1, |g| { let (w, h) = (g.r.u32(40, 90), g.r.u32(40, 90)); let im = Arc::new(g.img::<Luma<u8>>(w, h)); let n = g.r.usize(1, 40); mk("oriented_fast(random)", format!("{w}x{h} n{n}"), im, move |im| dofast(&oriented_fast(im, None, n, 16, None))) });
    op!(v, "detect_lines", 0, 2, |g| { let im = g.gray(A4); let o = LineDetectionOptions { vote_threshold: g.r.u32(1, 40), suppression_radius: g.r.u32(0, 8) }; mk("detect_lines", format!("{}x{} {o:?}", im.width(), im.height()), im, move |im| { let l = detect_lines(im, o); let mut d = Dig::new(); for x in &l { d.add(&x.r).add(&x.angle_in_degrees); } d.add(&l.len()); d.get() }) });
    op!(v, "draw_polar_lines", 0, 2, |g| { let im = g.gray(A3); let n = g.r.usize(0, 5); let ls: Vec<PolarLine> = (0..n).map(|_| PolarLine { r: g.r.f32(-200.0, 300.0), angle_in_degrees: g.r.below(180) as u32 }).collect(); let c = g.u8(); mk("draw_polar_lines", format!("{}x{} {ls:?}", im.width(), im.height()), im, move |im| { let a = draw_polar_lines(&**im, &ls, Luma([c])); let mut d = Dig::new(); d.add(&a); for l in &ls { d.add(&format!("{:?}", intersection_points(*l, im.width(), im.height()))); } d.get() }) });
    op!(v, "suppress_non_maximum", 0, 2, |g| { let im = g.gray(A3); let r = g.radius(7); mk("suppress_non_maximum", format!("{}x{} r{r}", im.width(), im.height()), im, move |im| di(&suppress_non_maximum(&**im, r))) });
    op!(v, "local_maxima", 0, 2, |g| { let n = g.r.usize(0, 60); let mut cs: Vec<Corner> = (0..n).map(|_| Corner::new(g.r.u32(0, 40), g.r.u32(0, 40), g.r.below(6) as f32)).collect(); cs.sort_by_key(|c| (c.y, c.x)); let r = g.radius(6); mk("local_maxima", format!("{n} r{r}"), NoDig(cs), move |cs| dcorners(&local_maxima(&cs.0, r))) });
    // ---- contrast, stats
    op!(v, "adaptive_threshold", 0, 2, |g| { let im = g.gray(A3); let r = g.radius(9).max(1); let dl = g.r.range(-9, 9) as i32; mk("adaptive_threshold", format!("{}x{} r{r} d{dl}", im.width(), im.height()), im, move |im| di(&contrast::adaptive_threshold(im, r, dl))) });
    op!(v, "otsu/kapur", 0, 2, |g| { let im = g.gray(A2); mk("otsu/kapur", format!("{}x{}", im.width(), im.height()), im, |im| dig(&(contrast::otsu_level(im), contrast::kapur_level(im)))) });
    op!(v, "threshold", 0, 2, |g| { let im = g.gray(A2); let t = g.u8(); let k = g.r.below(5); mk("threshold", format!("{}x{} t{t} #{k}", im.width(), im.height()), im, move |im| { use contrast::ThresholdType::*; di(&contrast::threshold(im, t, match k { 0 => Binary, 1 => BinaryInverted, 2 => Truncate, 3 => ToZero, _ => ToZeroInverted })) }) });
    op!(v, "equalize_histogram", PAR, 4, |g| { let im = g.gray(A1); let m = g.r.chance(1, 2); mk("equalize_histogram", format!("{}x{} mut={m}", im.width(), im.height()), im, move |im| if m { let mut c = (**im).clone(); contrast::equalize_histogram_mut(&mut c); di(&c) } else { di(&contrast::equalize_histogram(im)) }) });
    op!(v, "stretch_contrast", 0, 2, |g| { let im = g.gray(A2); let (a, b, c, e) = (g.u8(), g.u8(), g.u8(), g.u8()); let (lo, hi) = (a.min(b), a.max(b)); let (ol, oh) = (c.min(e), c.max(e)); mk("stretch_contrast", format!("{}x{} {lo} {hi} {ol} {oh}", im.width(), im.height()), im, move |im| di(&contrast::stretch_contrast(im, lo, hi, ol, oh))) });
    op!(v, "match_histogram", 0, 2, |g| { let im = g.gray(A2); let t = g.gray(A2); mk("match_histogram", format!("{}x{} {}x{}", im.width(), im.height(), t.width(), t.height()), (im, t), |(im, t)| di(&contrast::match_histogram(im, t))) });
    op!(v, "stats", 0, 2, |g| { let im = g.rgb(A2); let gr = g.gray(A2); let p = g.u8() % 101; mk("stats", format!("{}x{} p{p}", im.width(), im.height()), (im, gr), move |(im, gr)| { let mut d = Dig::new(); for c in stats::histogram(im).channels { d.add(&c); } for c in stats::cumulative_histogram(gr).channels { d.add(&c); } for m in stats::min_max(im) { d.add(&m.min).add(&m.max); } d.add(&stats::percentile(gr, p)); d.get() }) });
    op!(v, "rmse/psnr", 0, 1, |g| { let a = g.rgb(A2); let b = Arc::new(g.img::<Rgb<u8>>(a.width(), a.height())); mk("rmse/psnr", format!("{}x{}", a.width(), a.height()), (a, b), |(a, b)| dig(&(stats::root_mean_squared_error(&**a, &**b), stats::peak_signal_to_noise_ratio(&**a, &**b)))) });
    // ---- morphology, distance
    op!(v, "morphology", 0, 3, |g| { let im = g.gray(A3); let n = norm(g); let k = g.r.below(9) as u8; let w = g.r.below(4); mk("morphology", format!("{}x{} {n:?} k{k} #{w}", im.width(), im.height()), im, move |im| match w { 0 => di(&dilate(im, n, k)), 1 => di(&erode(im, n, k)), 2 => di(&open(im, n, k)), _ => di(&close(im, n, k)) }) });
    op!(v, "grayscale_morphology", 0, 3, |g| { let im = g.gray(A4); let (m, s) = mask(g); let w = g.r.below(4); mk("grayscale_morphology", format!("{}x{} {s} #{w}", im.width(), im.height()), im, move |im| { let m = &m(); match w { 0 => di(&grayscale_dilate(im, m)), 1 => di(&grayscale_erode(im, m)), 2 => di(&grayscale_open(im, m)), _ => di(&grayscale_close(im, m)) } }) });
    op!(v, "distance_transform", 0, 3, |g| { let im = g.gray(A3); let n = norm(g); mk("distance_transform", format!("{}x{} {n:?}", im.width(), im.height()), im, move |im| di(&distance_transform(im, n))) });
    op!(v, "euclidean_squared_dt", 0, 2, |g| { let im = g.gray(A3); mk("euclidean_squared_dt", format!("{}x{}", im.width(), im.height()), im, |im| di(&euclidean_squared_distance_transform(im))) });
    // ---- regions, contours, geometry
    op!(v, "connected_components<Luma8>", 0, 3, |g| { let im = g.gray(A3); let c = if g.r.chance(1, 2) { Connectivity::Four } else { Connectivity::Eight }; let b = if g.r.chance(1, 2) { 0 } else { g.u8() }; mk("connected_components<Luma8>", format!("{}x{} {c:?} bg{b}", im.width(), im.height()), im, move |im| di(&connected_components(&**im, c, Luma([b])))) });
    op!(v, "connected_components<Rgb8>", 0, 1, |g| { let im = g.rgb(A4); let c = if g.r.chance(1, 2) { Connectivity::Four } else { Connectivity::Eight }; mk("connected_components<Rgb8>", format!("{}x{} {c:?}", im.width(), im.height()), im, move |im| di(&connected_components(&**im, c, Rgb([0, 0, 0])))) });
    op!(v, "find_contours", 0, 3, |g| { let im = g.gray(A3); let t = if g.r.chance(1, 2) { 0 } else { g.u8() }; mk("find_contours", format!("{}x{} t{t}", im.width(), im.height()), im, move |im| { let cs = contours::find_contours_with_threshold::<i32>(im, t); let mut d = Dig::new(); for c in &cs { d.add(&dpi(&c.points)).add(&(c.border_type == contours::BorderType::Outer)).add(&c.parent); } d.add(&cs.len()); d.get() }) });
    op!(v, "geometry", 0, 3, |g| { let n = g.r.usize(3, 40); let ps = points_i32(g, n, 60, 60); let e = g.r.f64() * 8.0; let cl = g.r.chance(1, 2); mk("geometry", format!("{n} pts eps {e}"), NoDig(ps), move |ps| { let p = &ps.0; let mut d = Dig::new(); d.add(&arc_length(p, cl)).add(&dpi(&approximate_polygon_dp(p, e, cl))).add(&contour_area(p)).add(&oriented_contour_area(p)).add(&dpi(&convex_hull(p.clone()))).add(&dpi(&min_area_rect(p))); d.get() }) });
    op!(v, "rect ops", 0, 1, |g| { let (a, b) = (any_rect(g, 50, 50), any_rect(g, 50, 50)); let (x, y) = (g.coord(50), g.coord(50)); mk("rect ops", format!("{a:?} {b:?}"), (), move |_| { let mut d = Dig::new(); d.add(&format!("{:?}", a.intersect(b))).add(&a.contains(x, y)).add(&(a.top(), a.left(), a.bottom(), a.right())); d.get() }) });
    op!(v, "flood_fill", 0, 2, |g| { let im = g.gray(A3); let (w, h) = im.dimensions(); let x = g.r.below(w.max(1) as u64) as u32; let y = g.r.below(h.max(1) as u64) as u32; let c = g.u8(); mk("flood_fill", format!("{w}x{h} ({x},{y})"), im, move |im| di(&flood_fill(im, x, y, Luma([c])))) });
    // ---- geometric transformations
    op!(v, "warp<Luma8>", PAR, 6, |g| { let im = g.gray(A3); let (p, s) = projection(g, im.width(), im.height()); let i = interp(g); let d = g.u8(); mk("warp<Luma8>", format!("{}x{} {s} {i:?}", im.width(), im.height()), im, move |im| di(&warp(im, &p(), i, Luma([d])))) });
    op!(v, "warp<Rgb8>", PAR, 3, |g| { let im = g.rgb(A4); let (p, s) = projection(g, im.width(), im.height()); let i = interp(g); mk("warp<Rgb8>", format!("{}x{} {s} {i:?}", im.width(), im.height()), im, move |im| di(&warp(im, &p(), i, Rgb([1, 2, 3])))) });
    op!(v, "warp<LumaF32>", PAR, 2, |g| { let im = g.any::<Luma<f32>>(A4); let (p, s) = projection(g, im.width(), im.height()); let i = interp(g); mk("warp<LumaF32>", format!("{}x{} {s} {i:?}", im.width(), im.height()), im, move |im| di(&warp(im, &p(), i, Luma([0.5])))) });
    op!(v, "warp_into", PAR, 4, |g| { let im = g.rgb(A4); let (p, s) = projection(g, im.width(), im.height()); let i = interp(g); let (ow, oh) = g.dims_cap(A4); let bg = g.u8(); mk("warp_into", format!("{}x{}->{ow}x{oh} {s} {i:?}", im.width(), im.height()), im, move |im| { let mut o = ImageBuffer::from_pixel(ow, oh, Rgb([bg, 7, 7])); warp_into(im, &p(), i, Rgb([9, 8, 7]), &mut o); di(&o) }) });
    op!(v, "warp_with", PAR, 4, |g| { let im = g.gray(A3); let i = interp(g); let (a, b, f) = (g.r.f32(-3.0, 3.0), g.r.f32(-3.0, 3.0), g.r.f32(0.05, 0.5)); mk("warp_with", format!("{}x{} {i:?} {a} {b} {f}", im.width(), im.height()), im, move |im| di(&warp_with(im, |x, y| (x + a * (y * f).sin(), y + b * (x * f).cos()), i, Luma([3])))) });
    op!(v, "warp_into_with", PAR, 3, |g| { let im = g.rgba(A4); let i = interp(g); let (a, b) = (g.r.f32(-3.0, 3.0), g.r.f32(0.4, 1.6)); let (ow, oh) = g.dims_cap(A4); mk("warp_into_with", format!("{}x{}->{ow}x{oh} {i:?}", im.width(), im.height()), im, move |im| { let mut o = RgbaImage::new(ow, oh); warp_into_with(im, |x, y| (x * b + a, y * b - a), i, Rgba([3, 4, 5, 6]), &mut o); di(&o) }) });
    op!(v, "rotate", PAR, 4, |g| { let im = g.gray(A3); let (w, h) = im.dimensions(); let c = (g.fcoord(w), g.fcoord(h)); let t = g.theta(); let i = interp(g); mk("rotate", format!("{w}x{h} {c:?} {t} {i:?}"), im, move |im| di(&rotate(im, c, t, i, Luma([77])))) });
    op!(v, "rotate_about_center", PAR, 4, |g| { let im = g.rgb(A4); let t = g.theta(); let i = interp(g); mk("rotate_about_center", format!("{}x{} {t} {i:?}", im.width(), im.height()), im, move |im| di(&rotate_about_center(im, t, i, Rgb([1, 1, 1])))) });
    op!(v, "rotate90/180/270", 0, 2, |g| { let im = g.rgb(A2); let k = g.r.below(4); mk("rotate90/180/270", format!("{}x{} #{k}", im.width(), im.height()), im, move |im| match k { 0 => di(&rotate90(im)), 1 => di(&rotate180(im)), 2 => di(&rotate270(im)), _ => { let mut c = (**im).clone(); rotate180_mut(&mut c); di(&c) } }) });
    op!(v, "translate", 0, 2, |g| { let im = g.gray(A2); let t = (g.coord(im.width()), g.coord(im.height())); mk("translate", format!("{}x{} {t:?}", im.width(), im.height()), im, move |im| di(&translate(im, t))) });
    op!(v, "compose", 0, 3, |g| { let im = g.rgb(A2); let k = g.r.below(6); let r = rect_in(g, im.width(), im.height()); let top = g.rgb(A3); let (x, y) = (g.r.u32(0, im.width()), g.r.u32(0, im.height())); mk("compose", format!("{}x{} #{k} {r:?} ({x},{y})", im.width(), im.height()), (im, top), move |(im, top)| match k { 0 | 1 => di(&compose::crop(im, r)), 2 => di(&compose::flip_horizontal(im)), 3 => di(&compose::flip_vertical(im)), 4 => di(&compose::replace(&**im, &**top, x, y)), _ => { let mut c = (**im).clone(); compose::flip_vertical_mut(&mut c); compose::flip_horizontal_mut(&mut c); di(&c) } }) });
    op!(v, "overlay", 0, 1, |g| { let im = g.rgba(A3); let top = g.rgba(A3); let (x, y) = (g.r.u32(0, im.width()), g.r.u32(0, im.height())); mk("overlay", format!("{}x{} ({x},{y})", im.width(), im.height()), (im, top), move |(im, top)| di(&compose::overlay(&**im, &**top, x, y))) });
    op!(v, "crop_parallel", EXPL | PAR, 2, |g| { let im = g.rgb(A2); let r = rect_in(g, im.width(), im.height()); mk("crop_parallel", format!("{}x{} {r:?}", im.width(), im.height()), im, move |_im| { #[cfg(feature = "par")] { di(&compose::crop_parallel(_im, r)) } #[cfg(not(feature = "par"))] { let _ = r; 0 } }) });
    // ---- template matching
    op!(v, "match_template", 0, 3, |g| { let (im, t) = template_pair(g, A4, 200_000); let m = method(g); mk("match_template", format!("{}x{} t{}x{} {m:?}", im.width(), im.height(), t.width(), t.height()), (im, t), move |(im, t)| di(&match_template(im, t, m))) });
    op!(v, "match_template_with_mask", 0, 2, |g| { let (im, t) = template_pair(g, A4, 200_000); let k = mask_for(g, &t); let m = method(g); mk("match_template_with_mask", format!("{}x{} t{}x{} {m:?}", im.width(), im.height(), t.width(), t.height()), (im, t, k), move |(im, t, k)| di(&match_template_with_mask(im, t, m, k))) });
    op!(v, "match_template_parallel", EXPL | PAR, 2, |g| { let (im, t) = template_pair(g, A4, 200_000); let m = method(g); mk("match_template_parallel", format!("{}x{} t{}x{} {m:?}", im.width(), im.height(), t.width(), t.height()), (im, t), move |(_im, _t)| { #[cfg(feature = "par")] { di(&match_template_parallel(_im, _t, m)) } #[cfg(not(feature = "par"))] { let _ = m; 0 } }) });
    op!(v, "find_extremes", 0, 1, |g| { let im = g.any::<Luma<f32>>(A2); mk("find_extremes", format!("{}x{}", im.width(), im.height()), im, |im| { let e = find_extremes(im); dig(&(e.max_value, e.min_value, e.max_value_location, e.min_value_location)) }) });
    // ---- integral, haar, hog, lbp, descriptors
    op!(v, "integral_image", 0, 3, |g| { let im = g.gray(A2); let k = g.r.below(2); mk("integral_image", format!("{}x{} #{k}", im.width(), im.height()), im, move |im| if k == 0 { di(&integral_image::integral_image::<_, u32>(im)) } else { di(&integral_image::integral_squared_image::<_, u32>(im)) }) });
    op!(v, "integral_image<Rgb8>", 0, 1, |g| { let im = g.rgb(A3); mk("integral_image<Rgb8>", format!("{}x{}", im.width(), im.height()), im, |im| di(&integral_image::integral_image::<_, u32>(im))) });
    op!(v, "sum/variance", 0, 2, |g| { let im = g.gray(A3); let (w, h) = im.dimensions(); let (l, t) = (g.r.below(w.max(1) as u64) as u32, g.r.below(h.max(1) as u64) as u32); let (r, b) = (g.r.u32(l, w.max(1) - 1), g.r.u32(t, h.max(1) - 1)); mk("sum/variance", format!("{w}x{h} {l},{t},{r},{b}"), im, move |im| { if im.width() == 0 || im.height() == 0 { return 0 } let a: Image<Luma<u32>> = integral_image::integral_image(im); let q: Image<Luma<u32>> = integral_image::integral_squared_image(im); dig(&(integral_image::sum_image_pixels(&a, l, t, r, b)[0], integral_image::variance(&a, &q, l, t, r, b))) }) });
    op!(v, "running_sum", 0, 2, |g| { let im = g.gray(A3); let (w, h) = im.dimensions(); let row = g.r.below(h.max(1) as u64) as u32; let col = g.r.below(w.max(1) as u64) as u32; let pad = g.r.u32(0, 9); mk("running_sum", format!("{w}x{h} row {row} col {col} pad {pad}"), im, move |im| { if im.width() == 0 || im.height() == 0 { return 0 } let mut a = vec![0u32; (im.width() + 2 * pad) as usize]; let mut b = vec![0u32; (im.height() + 2 * pad) as usize]; integral_image::row_running_sum(im, row, &mut a, pad); integral_image::column_running_sum(im, col, &mut b, pad); dig(&(a, b)) }) });
    op!(v, "haar", 0, 2, |g| { let im = g.gray(A4); let (fw, fh) = (g.r.u32(1, 7) as u8, g.r.u32(1, 7) as u8); mk("haar", format!("{}x{} frame {fw}x{fh}", im.width(), im.height()), im, move |im| { let fs = enumerate_haar_features(fw, fh); let ii: Image<Luma<u32>> = integral_image::integral_image(im); let mut d = Dig::new(); d.add(&fs.len()).add(&number_of_haar_features(fw as u32, fh as u32)); if im.width() > fw as u32 && im.height() > fh as u32 { for f in fs.iter().step_by(7).take(40) { d.add(&f.evaluate(&ii)); } if let Some(f) = fs.first() { d.add(&draw_haar_feature(&**im, *f)); } } d.get() }) });
    op!(v, "hog", 0, 2, |g| { let cs = g.r.usize(2, 8); let n = g.r.usize(2, 5); let (w, h) = ((cs * n) as u32, (cs * (n + g.r.usize(0, 2))) as u32); let im = Arc::new(g.img::<Luma<u8>>(w, h)); let o = HogOptions { orientations: g.r.usize(2, 12), signed: g.r.chance(1, 2), cell_side: cs, block_side: g.r.usize(1, 2), block_stride: 1 }; mk("hog", format!("{w}x{h} {o:?}"), im, move |im| { let mut d = Dig::new(); match hog(im, o) { Ok(x) => { d.f32s(&x); } Err(e) => { d.add(&e); } } if let Ok(s) = HogSpec::from_options(im.width(), im.height(), o) { d.add(&s.descriptor_length()); let mut c = cell_histograms(im, s); d.add(&render_hist_grid(9, &c.view_mut(), o.signed)); } d.get() }) });
    op!(v, "local_binary_pattern", 0, 2, |g| { let im = g.gray(A3); let b = g.u8(); mk("local_binary_pattern", format!("{}x{}", im.width(), im.height()), im, move |im| { let (w, h) = im.dimensions(); let mut d = Dig::new(); for i in 0..40u32 { d.add(&local_binary_patterns::local_binary_pattern(&**im, i * 7 % w.max(1), i * 3 % h.max(1))); } d.add(&local_binary_patterns::min_shift(b)).add(&local_binary_patterns::count_transitions(b)).add(&local_binary_patterns::UNIFORM_REPRESENTATIVE_2[b as usize]).add(&local_binary_patterns::MIN_SHIFT[b as usize]); d.get() }) });
    op!(v, "phash", 0, 2, |g| { let im = g.any::<Luma<f32>>(A4); mk("phash", format!("{}x{}", im.width(), im.height()), im, |im| dd(&image_hash::phash(im))) });
    op!(v, "brief(pairs)", 0, 2, |g| { let (w, h) = (g.r.u32(33, 90), g.r.u32(33, 90)); let im = Arc::new(g.img::<Luma<u8>>(w, h)); let len = g.r.pick(&[128usize, 256, 128, 100]); let ps = test_pairs(g, len); let kn = g.r.usize(0, 12); let ks = keypoints(g, kn, w, h); mk("brief(pairs)", format!("{w}x{h} {} keypoints length {len}", ks.len()), (im, NoDig((ps, ks))), move |(im, k)| match brief(im, &k.0 .1, len, Some(&k.0 .0)) { Ok((d, _)) => dig(&Descs(d)), Err(e) => dig(&e) }) });
    op!(v, "match_descriptors(seed)", SEEDED, 3, |g| { let ch = g.r.usize(1, 2); let (na, nb) = (g.r.usize(1, 25), g.r.usize(1, 25)); let (a, b) = (descriptors(g, na, ch), descriptors(g, nb, ch)); let t = g.r.u32(1, 60); let s = g.seed(); mk("match_descriptors(seed)", format!("{}x{} t{t} seed {s}", a.len(), b.len()), (Descs(a), Descs(b)), move |(a, b)| dmatches(&match_binary_descriptors(&a.0, &b.0, t, Some(s)))) });
    op!(v, "match_descriptors(random)", RANDOM, 1, |g| { let (a, b) = (descriptors(g, 8, 1), descriptors(g, 9, 1)); mk("match_descriptors(random)", String::new(), (Descs(a), Descs(b)), move |(a, b)| dmatches(&match_binary_descriptors(&a.0, &b.0, 30, None))) });
    op!(v, "brief(random)", RANDOM, 1, |g| { let im = Arc::new(g.img::<Luma<u8>>(40, 40)); mk("brief(random)", String::new(), im, move |im| { let _ = brief(im, &[Point::new(20, 20)], 128, None); 0 }) });
    // ---- noise
    op!(v, "gaussian_noise<Luma8>", SEEDED, 3, |g| { let im = g.gray(A3); let (m, s, k) = (g.r.f64() * 20.0 - 10.0, g.r.f64() * 40.0, g.seed()); mk("gaussian_noise<Luma8>", format!("{}x{} {m} {s} seed {k}", im.width(), im.height()), im, move |im| di(&noise::gaussian_noise(im, m, s, k))) });
    op!(v, "gaussian_noise<Rgb8>", SEEDED, 1, |g| { let im = g.rgb(A4); let (m, s, k) = (g.r.f64() * 20.0 - 10.0, g.r.f64() * 40.0, g.seed()); mk("gaussian_noise<Rgb8>", format!("{}x{} {m} {s} seed {k}", im.width(), im.height()), im, move |im| di(&noise::gaussian_noise(im, m, s, k))) });
    op!(v, "salt_and_pepper", SEEDED, 3, |g| { let im = g.gray(A3); let (r, k) = (g.r.f64(), g.seed()); mk("salt_and_pepper", format!("{}x{} {r} seed {k}", im.width(), im.height()), im, move |im| di(&noise::salt_and_pepper_noise(im, r, k))) });
    // ---- drawing
    op!(v, "draw shapes", 0, 6, |g| { let im = g.rgba(A3); let n = g.r.usize(1, 4); let ss: Vec<Shape> = (0..n).map(|_| shape(g, im.width(), im.height())).collect(); let c = Rgba([g.u8(), g.u8(), g.u8(), g.u8()]); let k = g.r.below(3); mk("draw shapes", format!("{}x{} {ss:?} #{k}", im.width(), im.height()), im, move |im| match k { 0 => { let mut x = (**im).clone(); for s in &ss { s.draw_mut(&mut x, c) } di(&x) } 1 => { let mut x = Blend((**im).clone()); for s in &ss { s.draw_mut(&mut x, c) } di(&x.0) } _ => { let mut x = (**im).clone(); for s in &ss { x = s.draw_copy(&x, c) } di(&x) } }) });
    op!(v, "draw antialiased", 0, 2, |g| { let im = g.rgba(A3); let (w, h) = im.dimensions(); let n = g.r.usize(3, 7); let ps = points_i32(g, n, w, h); let c = Rgba([g.u8(), g.u8(), g.u8(), 255]); let l = g.r.chance(1, 2); mk("draw antialiased", format!("{w}x{h} {ps:?}"), im, move |im| if l { di(&draw_antialiased_line_segment(&**im, (ps[0].x, ps[0].y), (ps[1].x, ps[1].y), c, pixelops::interpolate)) } else { di(&draw_antialiased_polygon(&**im, &ps, c, pixelops::interpolate)) }) });
    op!(v, "text_size", 0, 1, |g| { let s = g.r.f32(1.0, 60.0); let t = g.r.pick(&["A", "hello", "", "Wg|", "äöü"]); mk("text_size", format!("{s} {t}"), (), move |_| dig(&text_size(s, &font(), t))) });
    op!(v, "bresenham iters", 0, 2, |g| { let im = g.gray(A3); let (w, h) = im.dimensions(); let (a, b) = ((g.r.f32(0.0, w.max(1) as f32 - 1.0), g.r.f32(0.0, h.max(1) as f32 - 1.0)), (g.r.f32(0.0, w.max(1) as f32 - 1.0), g.r.f32(0.0, h.max(1) as f32 - 1.0))); mk("bresenham iters", format!("{w}x{h} {a:?} {b:?}"), im, move |im| { if im.width() == 0 || im.height() == 0 { return 0 } let mut d = Dig::new(); for p in BresenhamLineIter::new(a, b) { d.add(&p); } for p in BresenhamLinePixelIter::new(im, a, b) { d.add(&p.0[0]); } let mut c = (**im).clone(); for p in BresenhamLinePixelIterMut::new(&mut c, a, b) { p.0[0] = p.0[0].wrapping_add(1) } d.add(&c); d.get() }) });
    // ---- maps, misc
    op!(v, "map_subpixels", 0, 2, |g| { let im = g.rgb(A2); let k = g.u8(); mk("map_subpixels", format!("{}x{}", im.width(), im.height()), im, move |im| di(&map_subpixels::<_, _, u16>(im, |x| x as u16 * 3 + k as u16))) });
    op!(v, "map_pixels", 0, 2, |g| { let im = g.rgb(A2); mk("map_pixels", format!("{}x{}", im.width(), im.height()), im, |im| di(&map_pixels(im, |p: Rgb<u8>| Luma([p.0[0] ^ p.0[1]])))) });
    op!(v, "map_enumerated_pixels", 0, 2, |g| { let im = g.gray(A2); mk("map_enumerated_pixels", format!("{}x{}", im.width(), im.height()), im, |im| di(&map_enumerated_pixels(im, |x, y, p: Luma<u8>| Luma([x.wrapping_mul(31) ^ y ^ p.0[0] as u32])))) });
    op!(v, "map_pixels2", 0, 1, |g| { let a = g.gray(A2); let b = Arc::new(g.img::<Luma<u8>>(a.width(), a.height())); mk("map_pixels2", format!("{}x{}", a.width(), a.height()), (a, b), |(a, b)| di(&map_pixels2(&**a, &**b, |p: Luma<u8>, q: Luma<u8>| Luma([p.0[0] as u16 * q.0[0] as u16])))) });
    op!(v, "map_*_parallel", EXPL | PAR, 2, |g| { let im = g.rgb(A2); let k = g.r.below(3); mk("map_*_parallel", format!("{}x{} #{k}", im.width(), im.height()), im, move |_im| { #[cfg(feature = "par")] { match k { 0 => di(&map_subpixels_parallel::<_, _, u16>(_im, |x| x as u16 * 3)), 1 => di(&map_pixels_parallel(_im, |p: Rgb<u8>| Luma([p.0[0] ^ p.0[1]]))), _ => di(&map_enumerated_pixels_parallel(_im, |x, y, p: Rgb<u8>| Luma([x.wrapping_mul(31) ^ y ^ p.0[0] as u32]))) } } #[cfg(not(feature = "par"))] { let _ = k; 0 } }) });
    op!(v, "channels", 0, 1, |g| { let im = g.rgb(A2); let k = g.r.below(3); mk("channels", format!("{}x{} #{k}", im.width(), im.height()), im, move |im| match k { 0 => di(&from_red_channel(&into_red_channel(im))), 1 => di(&from_green_channel(&into_green_channel(im))), _ => di(&from_blue_channel(&into_blue_channel(im))) }) });
    op!(v, "pixelops/math", 0, 1, |g| { let (a, b) = ([g.u8(), g.u8(), g.u8()], [g.u8(), g.u8(), g.u8()]); let (x, y) = (g.r.f32(0.0, 1.0), g.r.f32(0.0, 2.0)); mk("pixelops/math", format!("{a:?} {b:?} {x} {y}"), (), move |_| { let mut d = Dig::new(); d.add(&pixelops::weighted_sum(Rgb(a), Rgb(b), x, y).0).add(&pixelops::interpolate(Rgb(a), Rgb(b), x).0).add(&math::l1_norm(&[x, y, -x])).add(&math::l2_norm(&[x, y, -x])); d.get() }) });
    op!(v, "seam_carving", 0, 2, |g| { let im = g.gray(A5); let w = im.width(); let t = w.saturating_sub(g.r.u32(0, 3)); mk("seam_carving", format!("{}x{} -> {t}", w, im.height()), im, move |im| { if im.width() < 3 || im.height() < 3 { return 0 } let mut d = Dig::new(); d.add(&shrink_width(&**im, t)); let s = find_vertical_seam(&**im); d.add(&remove_vertical_seam(&**im, &s)); d.add(&draw_vertical_seams(im, &[s])); d.get() }) });
    op!(v, "pixel_diff_summary", 0, 3, |g| { let a = g.gray(A4); let mut b = (*a).clone(); let n = g.r.usize(0, 8); if a.width() > 0 && a.height() > 0 { for _ in 0..n { let (x, y) = (g.r.below(a.width() as u64) as u32, g.r.below(a.height() as u64) as u32); b.put_pixel(x, y, Luma([g.u8()])) } } let r = g.r.chance(1, 30); let b = if r { g.img::<Luma<u8>>(a.width() + 1, a.height()) } else { b }; mk("pixel_diff_summary", format!("{}x{} {n} changes", a.width(), a.height()), (a, b), |(a, b)| dig(&utils::pixel_diff_summary(&**a, b))) });
    op!(v, "describe_pixel_diffs<Rgb8>", 0, 2, |g| { let a = g.rgb(A5); let mut b = (*a).clone(); let n = g.r.usize(1, 8); if a.width() > 0 && a.height() > 0 { for _ in 0..n { let (x, y) = (g.r.below(a.width() as u64) as u32, g.r.below(a.height() as u64) as u32); b.put_pixel(x, y, Rgb([g.u8(), 1, 2])) } } mk("describe_pixel_diffs<Rgb8>", format!("{}x{} {n} changes", a.width(), a.height()), (a, b), |(a, b)| { let ds = utils::pixel_diffs(&**a, b, |p, q| p.2 != q.2); dig(&utils::describe_pixel_diffs(&**a, b, &ds)) }) });
    op!(v, "bench images", 0, 1, |g| { let (w, h) = g.dims_cap(A3); mk("bench images", format!("{w}x{h}"), (), move |_| { let mut d = Dig::new(); d.add(&utils::gray_bench_image(w, h)).add(&utils::rgb_bench_image(w, h)).add(&utils::luma32f_bench_image(w, h)); d.get() }) });
    op!(v, "union_find", 0, 2, |g| { let n = g.r.usize(1, 60); let us: Vec<(usize, usize)> = (0..g.r.usize(0, 80)).map(|_| (g.r.below(n as u64) as usize, g.r.below(n as u64) as usize)).collect(); mk("union_find", format!("{n} elements {} unions", us.len()), us, move |us| { let mut f = imageproc::union_find::DisjointSetForest::new(n); for (a, b) in us { f.union(*a, *b) } let mut d = Dig::new(); d.add(&f.num_trees()).add(&f.trees()); d.get() }) });
    crate::user::user_ops(&mut v);
    let _ = |p: LumaA<u8>| p; let _: Option<binary_descriptors::brief::TestPair> = None;
    v
}
