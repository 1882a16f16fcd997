//! Calls that end in a panic: invalid arguments and panicking callbacks.
use crate::case::{mk, Case};
use crate::cat::*;
use image::{GrayImage, ImageBuffer, Luma, Rgb, Rgba};
use imageproc::drawing::*;
use imageproc::filter::*;
use imageproc::geometric_transformations::*;
use imageproc::kernel::Kernel;
use imageproc::map::*;
use imageproc::{compose, contrast, stats, template_matching};
use simbase::digest::dig;
use simbase::gen::G;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone)]
pub struct Abort { pub name: &'static str, pub make: fn(&mut G) -> Case }
/// Panics on the k-th invocation (counted per call).
fn bomb(k: u32) -> impl Fn() + Sync + Send { let n = AtomicU32::new(0); move || if n.fetch_add(1, Ordering::Relaxed) == k { panic!("bomb") } }
pub fn aborts() -> Vec<Abort> {
    let mut v: Vec<Abort> = vec![];
    macro_rules! ab { ($n:expr, $f:expr) => { v.push(Abort { name: $n, make: $f }); }; }
    ab!("abort: crop out of range", |g| { let im = g.rgb(4000); mk("abort: crop out of range", String::new(), im, |im| dig(&compose::crop(im, CropRect { x: 1, y: 1, width: im.width() + 1, height: 1 }))) });
    ab!("abort: template too large", |g| { let im = g.gray(4000); let t: GrayImage = ImageBuffer::new(im.width() + 1, im.height()); mk("abort: template too large", String::new(), im, move |im| dig(&template_matching::match_template(im, &t, template_matching::MatchTemplateMethod::SumOfSquaredErrors))) });
    ab!("abort: percentile", |g| { let im = g.gray(4000); mk("abort: percentile", String::new(), im, |im| dig(&stats::percentile(im, 101))) });
    ab!("abort: sigma", |g| { let im = g.gray(4000); let s = g.sigma(); mk("abort: sigma", String::new(), im, move |im| dig(&gaussian_blur_f32(im, -s))) });
    ab!("abort: adaptive radius 0", |g| { let im = g.gray(4000); mk("abort: adaptive radius 0", String::new(), im, |im| dig(&contrast::adaptive_threshold(im, 0, 0))) });
    ab!("abort: stretch bounds", |g| { let im = g.gray(4000); mk("abort: stretch bounds", String::new(), im, |im| dig(&contrast::stretch_contrast(im, 9, 3, 0, 255))) });
    ab!("abort: polygon closed", |g| { let im = g.gray(4000); mk("abort: polygon closed", String::new(), im, |im| { let p = imageproc::point::Point::new(3, 3); dig(&draw_polygon(&**im, &[p, imageproc::point::Point::new(5, 9), p], Luma([1]))) }) });
    ab!("abort: filter callback", |g| { let im = g.gray(4000); let n = im.width() * im.height(); let k = g.r.u32(0, n.max(1) - 1); mk("abort: filter callback", format!("at {k}"), im, move |im| { let b = bomb(k); dig(&filter::<_, _, _, Luma<i16>>(im, Kernel::new(&[1i32, 2, 1, 2, 4, 2, 1, 2, 1], 3, 3), |x| { b(); x as i16 })) }) });
    ab!("abort: map callback", |g| { let im = g.rgb(4000); let n = im.width() * im.height(); let k = g.r.u32(0, n.max(1) - 1); mk("abort: map callback", format!("at {k}"), im, move |im| { let b = bomb(k); dig(&map_pixels(im, |p: Rgb<u8>| { b(); p })) }) });
    ab!("abort: warp callback", |g| { let im = g.gray(4000); let n = im.width() * im.height(); let k = g.r.u32(0, n.max(1) - 1); let i = interp(g); mk("abort: warp callback", format!("at {k}"), im, move |im| { let b = bomb(k); dig(&warp_with(im, |x, y| { b(); (x + 0.5, y) }, i, Luma([0]))) }) });
    ab!("abort: gradient callback", |g| { let im = g.gray(4000); let n = im.width() * im.height(); let k = g.r.u32(0, n.max(1) - 1); mk("abort: gradient callback", format!("at {k}"), im, move |im| { let b = bomb(k); dig(&imageproc::gradients::sobel_gradient_map(im, |p: Luma<u16>| { b(); p })) }) });
    ab!("abort: blend callback", |g| { let im = g.rgba(4000); let k = g.r.u32(0, 9); mk("abort: blend callback", format!("at {k}"), im, move |im| { let b = bomb(k); dig(&draw_antialiased_line_segment(&**im, (0, 0), (im.width() as i32 - 1, im.height() as i32 - 1), Rgba([1, 2, 3, 4]), |p, _, _| { b(); p })) }) });
    #[cfg(feature = "par")]
    ab!("abort: parallel map callback", |g| { let im = g.rgb(4000); let n = im.width() * im.height(); let k = g.r.u32(0, n.max(1) - 1); mk("abort: parallel map callback", format!("at {k}"), im, move |im| { let b = bomb(k); dig(&map_pixels_parallel(im, |p: Rgb<u8>| { b(); p })) }) });
    #[cfg(feature = "par")]
    ab!("abort: parallel filter callback", |g| { let im = g.gray(4000); let n = im.width() * im.height(); let k = g.r.u32(0, n.max(1) - 1); mk("abort: parallel filter callback", format!("at {k}"), im, move |im| { let b = bomb(k); dig(&filter_parallel::<_, _, _, Luma<i16>>(im, Kernel::new(&[1i32, 2, 1, 2, 4, 2, 1, 2, 1], 3, 3), |x| { b(); x as i16 })) }) });
    v
}
