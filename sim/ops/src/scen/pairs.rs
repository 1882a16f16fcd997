//! C01: `_parallel` variants against their sequential counterparts.
use super::*;
use crate::case::mk;
use crate::cat::*;
use image::{Luma, LumaA, Pixel, Rgb, Rgba};
use imageproc::definitions::Image;
use imageproc::filter::*;
use imageproc::kernel::Kernel;
use imageproc::map::*;
use imageproc::template_matching::*;
use imageproc::{compose};
use simbase::digest::{dig, PrimDig};

fn di<P: Pixel>(x: &Image<P>) -> u64 where P::Subpixel: PrimDig { dig(x) }
pub struct Pair { pub name: &'static str, pub make: fn(&mut G) -> (Case, Case) }
/// Build both variants over the same shared inputs.
fn two<I: simbase::Digest + Send + Sync + 'static>(name: &'static str, d: String, i: I, f: impl Fn(&I) -> u64 + Send + Sync + 'static, p: impl Fn(&I) -> u64 + Send + Sync + 'static) -> (Case, Case) {
    let a = Arc::new(i);
    (mk(name, d.clone(), a.clone(), move |x| f(x)), mk(name, d, a, move |x| p(x)))
}
const A1: u64 = 1_200_000;
const A3: u64 = 20_000;
const A4: u64 = 4_000;
fn boom(g: &mut G) -> u32 { if g.r.chance(1, 25) { g.r.u32(0, 255) } else { 1000 } }
macro_rules! dims { ($im:expr) => { format!("{}x{}", $im.width(), $im.height()) }; }

pub fn pairs() -> Vec<Pair> {
    let mut v: Vec<Pair> = vec![];
    macro_rules! pair { ($n:expr, $f:expr) => { v.push(Pair { name: $n, make: $f }); }; }
    pair!("map_subpixels<Rgb8>", |g| { let im = g.rgb(A1); let k = g.u8(); let b = boom(g); let f = move |x: u8| { if x as u32 == b { panic!("boom") } x as u16 * 251 + k as u16 }; two("map_subpixels<Rgb8>", dims!(im), im, move |im| di(&map_subpixels::<_, _, u16>(im, f)), move |im| di(&map_subpixels_parallel::<_, _, u16>(im, f))) });
    pair!("map_subpixels<LumaF32>", |g| { let im = g.any::<Luma<f32>>(A1); let f = |x: f32| (x * 255.0) as u8; two("map_subpixels<LumaF32>", dims!(im), im, move |im| di(&map_subpixels::<_, _, u8>(im, f)), move |im| di(&map_subpixels_parallel::<_, _, u8>(im, f))) });
    pair!("map_subpixels_mut<LumaA8>", |g| { let im = g.luma_a(A1); let k = g.u8(); let f = move |x: u8| x.wrapping_mul(7) ^ k; two("map_subpixels_mut<LumaA8>", dims!(im), im, move |im| { let mut c = (**im).clone(); map_subpixels_mut(&mut c, f); di(&c) }, move |im| { let mut c = (**im).clone(); map_subpixels_mut_parallel(&mut c, f); di(&c) }) });
    pair!("map_subpixels_mut<Rgba8>", |g| { let im = g.rgba(A1); let k = g.u8(); let f = move |x: u8| x.wrapping_mul(9) ^ k; two("map_subpixels_mut<Rgba8>", dims!(im), im, move |im| { let mut c = (**im).clone(); map_subpixels_mut(&mut c, f); di(&c) }, move |im| { let mut c = (**im).clone(); map_subpixels_mut_parallel(&mut c, f); di(&c) }) });
    pair!("map_pixels<Rgb8>", |g| { let im = g.rgb(A1); let b = boom(g); let f = move |p: Rgb<u8>| { if p.0[1] as u32 == b { panic!("boom") } Luma([p.0[0] as u16 * 3 + p.0[2] as u16]) }; two("map_pixels<Rgb8>", dims!(im), im, move |im| di(&map_pixels(im, f)), move |im| di(&map_pixels_parallel(im, f))) });
    pair!("map_pixels_mut<Luma8>", |g| { let im = g.gray(A1); let k = g.u8(); let f = move |p: Luma<u8>| Luma([p.0[0].rotate_left(3) ^ k]); two("map_pixels_mut<Luma8>", dims!(im), im, move |im| { let mut c = (**im).clone(); map_pixels_mut(&mut c, f); di(&c) }, move |im| { let mut c = (**im).clone(); map_pixels_mut_parallel(&mut c, f); di(&c) }) });
    pair!("map_pixels_mut<Luma16>", |g| { let im = g.any::<Luma<u16>>(A1); let f = move |p: Luma<u16>| Luma([p.0[0].rotate_left(5)]); two("map_pixels_mut<Luma16>", dims!(im), im, move |im| { let mut c = (**im).clone(); map_pixels_mut(&mut c, f); di(&c) }, move |im| { let mut c = (**im).clone(); map_pixels_mut_parallel(&mut c, f); di(&c) }) });
    pair!("map_enumerated_pixels<Rgba8>", |g| { let im = g.rgba(A1); let f = |x: u32, y: u32, p: Rgba<u8>| Luma([x.wrapping_mul(65599) ^ y.wrapping_mul(31) ^ p.0[3] as u32]); two("map_enumerated_pixels<Rgba8>", dims!(im), im, move |im| di(&map_enumerated_pixels(im, f)), move |im| di(&map_enumerated_pixels_parallel(im, f))) });
    pair!("map_enumerated_pixels<Luma8>", |g| { let im = g.gray(A1); let b = boom(g); let f = move |x: u32, y: u32, p: Luma<u8>| { if b < 256 && (x ^ y) == b { panic!("boom") } Luma([x.wrapping_mul(65599) ^ y.wrapping_mul(31) ^ p.0[0] as u32]) }; two("map_enumerated_pixels<Luma8>", dims!(im), im, move |im| di(&map_enumerated_pixels(im, f)), move |im| di(&map_enumerated_pixels_parallel(im, f))) });
    pair!("map_enumerated_pixels_mut<Rgb8>", |g| { let im = g.rgb(A1); let f = |x: u32, y: u32, p: Rgb<u8>| Rgb([p.0[2] ^ x as u8, p.0[0].wrapping_add(y as u8), (x * 3 + y) as u8]); two("map_enumerated_pixels_mut<Rgb8>", dims!(im), im, move |im| { let mut c = (**im).clone(); map_enumerated_pixels_mut(&mut c, f); di(&c) }, move |im| { let mut c = (**im).clone(); map_enumerated_pixels_mut_parallel(&mut c, f); di(&c) }) });
    pair!("filter<Luma8,i32>", |g| { let im = g.gray(A3); let k = kernel_i32(g, 7); let d = format!("{} kernel {}x{}", dims!(im), k.1, k.2); let f = |x: i32| x.clamp(-32768, 32767) as i16; two("filter<Luma8,i32>", d, (im, k), move |(im, k)| di(&filter::<_, _, _, Luma<i16>>(im, Kernel::new(&k.0, k.1, k.2), f)), move |(im, k)| di(&filter_parallel::<_, _, _, Luma<i16>>(im, Kernel::new(&k.0, k.1, k.2), f))) });
    pair!("filter<Rgb8,f32>", |g| { let im = g.rgb(A4); let k = kernel_f32(g, 7); let d = format!("{} kernel {}x{}", dims!(im), k.1, k.2); let f = |x: f32| x.clamp(0.0, 255.0) as u8; two("filter<Rgb8,f32>", d, (im, k), move |(im, k)| di(&filter::<_, _, _, Rgb<u8>>(im, Kernel::new(&k.0, k.1, k.2), f)), move |(im, k)| di(&filter_parallel::<_, _, _, Rgb<u8>>(im, Kernel::new(&k.0, k.1, k.2), f))) });
    pair!("filter<LumaF32,f32>", |g| { let im = g.any::<Luma<f32>>(A3); let k = kernel_f32(g, 5); let d = format!("{} kernel {}x{}", dims!(im), k.1, k.2); let f = |x: f32| x; two("filter<LumaF32,f32>", d, (im, k), move |(im, k)| di(&filter::<_, _, _, Luma<f32>>(im, Kernel::new(&k.0, k.1, k.2), f)), move |(im, k)| di(&filter_parallel::<_, _, _, Luma<f32>>(im, Kernel::new(&k.0, k.1, k.2), f))) });
    pair!("filter<LumaA8,i32>", |g| { let im = g.luma_a(A3); let k = kernel_i32(g, 5); let d = format!("{} kernel {}x{}", dims!(im), k.1, k.2); let f = |x: i32| (x & 255) as u8; two("filter<LumaA8,i32>", d, (im, k), move |(im, k)| di(&filter::<_, _, _, LumaA<u8>>(im, Kernel::new(&k.0, k.1, k.2), f)), move |(im, k)| di(&filter_parallel::<_, _, _, LumaA<u8>>(im, Kernel::new(&k.0, k.1, k.2), f))) });
    pair!("filter_clamped<Luma8>", |g| { let im = g.gray(A3); let k = kernel_i32(g, 5); let d = format!("{} kernel {}x{}", dims!(im), k.1, k.2); two("filter_clamped<Luma8>", d, (im, k), |(im, k)| di(&filter_clamped::<_, _, i16>(im, Kernel::new(&k.0, k.1, k.2))), |(im, k)| di(&filter_clamped_parallel::<_, _, i16>(im, Kernel::new(&k.0, k.1, k.2)))) });
    pair!("filter_clamped<Rgb8>", |g| { let im = g.rgb(A4); let k = kernel_f32(g, 5); let d = format!("{} kernel {}x{}", dims!(im), k.1, k.2); two("filter_clamped<Rgb8>", d, (im, k), |(im, k)| di(&filter_clamped::<_, _, u8>(im, Kernel::new(&k.0, k.1, k.2))), |(im, k)| di(&filter_clamped_parallel::<_, _, u8>(im, Kernel::new(&k.0, k.1, k.2)))) });
    pair!("laplacian_filter", |g| { let im = g.gray(A3); two("laplacian_filter", dims!(im), im, |im| di(&laplacian_filter(im)), |im| di(&laplacian_filter_parallel(im))) });
    pair!("sharpen3x3", |g| { let im = g.gray(A3); two("sharpen3x3", dims!(im), im, |im| di(&sharpen3x3(im)), |im| di(&sharpen3x3_parallel(im))) });
    pair!("crop<Rgb8>", |g| { let im = g.rgb(A1); let r = rect_in(g, im.width(), im.height()); two("crop<Rgb8>", format!("{} {r:?}", dims!(im)), im, move |im| di(&compose::crop(im, r)), move |im| di(&compose::crop_parallel(im, r))) });
    pair!("crop<Luma8>", |g| { let im = g.gray(A1); let r = rect_in(g, im.width(), im.height()); two("crop<Luma8>", format!("{} {r:?}", dims!(im)), im, move |im| di(&compose::crop(im, r)), move |im| di(&compose::crop_parallel(im, r))) });
    pair!("map_subpixels<Rgba16>", |g| { let im = g.any::<Rgba<u16>>(A3 * 4); let k = g.u8(); let f = move |x: u16| (x as f32 * 0.37 + k as f32) as i16; two("map_subpixels<Rgba16>", dims!(im), im, move |im| di(&map_subpixels::<_, _, i16>(im, f)), move |im| di(&map_subpixels_parallel::<_, _, i16>(im, f))) });
    pair!("map_pixels<LumaA8>", |g| { let im = g.luma_a(A3 * 4); let f = |p: LumaA<u8>| Rgba([p.0[0] as u16, p.0[1] as u16 * 3, p.0[0] as u16 ^ 0x5555, 9]); two("map_pixels<LumaA8>", dims!(im), im, move |im| di(&map_pixels(im, f)), move |im| di(&map_pixels_parallel(im, f))) });
    pair!("map_pixels<Rgba8>", |g| { let im = g.rgba(A3 * 4); let b = boom(g); let f = move |p: Rgba<u8>| { if p.0[3] as u32 == b { panic!("boom") } LumaA([p.0[0] as f32 * 0.1, p.0[3] as f32]) }; two("map_pixels<Rgba8>", dims!(im), im, move |im| { let o: Image<LumaA<f32>> = map_pixels(im, f); di(&o) }, move |im| { let o: Image<LumaA<f32>> = map_pixels_parallel(im, f); di(&o) }) });
    pair!("map_pixels_mut<RgbF32>", |g| { let im = g.any::<Rgb<f32>>(A3 * 4); let f = |p: Rgb<f32>| Rgb([p.0[2], p.0[0] * 0.3, -p.0[1]]); two("map_pixels_mut<RgbF32>", dims!(im), im, move |im| { let mut c = (**im).clone(); map_pixels_mut(&mut c, f); di(&c) }, move |im| { let mut c = (**im).clone(); map_pixels_mut_parallel(&mut c, f); di(&c) }) });
    pair!("map_enumerated_pixels_mut<Rgba16>", |g| { let im = g.any::<Rgba<u16>>(A3 * 4); let f = |x: u32, y: u32, p: Rgba<u16>| Rgba([p.0[3], x as u16, y as u16, p.0[0] ^ (x * 7 + y) as u16]); two("map_enumerated_pixels_mut<Rgba16>", dims!(im), im, move |im| { let mut c = (**im).clone(); map_enumerated_pixels_mut(&mut c, f); di(&c) }, move |im| { let mut c = (**im).clone(); map_enumerated_pixels_mut_parallel(&mut c, f); di(&c) }) });
    pair!("crop<Rgba16>", |g| { let im = g.any::<Rgba<u16>>(A3 * 4); let r = rect_in(g, im.width(), im.height()); two("crop<Rgba16>", format!("{} {r:?}", dims!(im)), im, move |im| di(&compose::crop(im, r)), move |im| di(&compose::crop_parallel(im, r))) });
    pair!("crop<LumaAF32>", |g| { let im = g.any::<LumaA<f32>>(A3 * 4); let r = rect_in(g, im.width(), im.height()); two("crop<LumaAF32>", format!("{} {r:?}", dims!(im)), im, move |im| di(&compose::crop(im, r)), move |im| di(&compose::crop_parallel(im, r))) });
    pair!("filter<Rgba16,f32>", |g| { let im = g.any::<Rgba<u16>>(A4); let k = kernel_f32(g, 6); let d = format!("{} kernel {}x{}", dims!(im), k.1, k.2); let f = |x: f32| x; two("filter<Rgba16,f32>", d, (im, k), move |(im, k)| di(&filter::<_, _, _, Rgba<f32>>(im, Kernel::new(&k.0, k.1, k.2), f)), move |(im, k)| di(&filter_parallel::<_, _, _, Rgba<f32>>(im, Kernel::new(&k.0, k.1, k.2), f))) });
    pair!("filter_clamped<user number>", |g| { let im = g.gray(A4); let k = kernel_i32(g, 5); let k: (Vec<i64>, u32, u32) = (k.0.iter().map(|&x| x as i64).collect(), k.1, k.2); let at = if g.r.chance(1, 3) { g.r.below(3000) as i64 } else { -1 }; let d = format!("{} kernel {}x{} fuse {at}", dims!(im), k.1, k.2); use crate::user::{ks, Fuse}; two("filter_clamped<user number>", d, (im, k.0), move |(im, v)| { let f = Fuse::new(at); di(&filter_clamped::<_, _, i16>(im, Kernel::new(&ks(v, &f), k.1, k.2))) }, move |(im, v)| { let f = Fuse::new(at); di(&filter_clamped_parallel::<_, _, i16>(im, Kernel::new(&ks(v, &f), k.1, k.2))) }) });
    fn tm(g: &mut G) -> (Arc<image::GrayImage>, Arc<image::GrayImage>) {
        if g.r.chance(1, 12) && g.cap > 50_000 {
            // large bright template: f32 sums beyond 2^24, where the order of summation is visible
            let (w, h) = (g.r.u32(60, 140), g.r.u32(60, 140));
            let (a, b) = (g.r.u32(0, 3), g.r.u32(0, 3)); let im = g.img::<Luma<u8>>(w, h); let t = g.img::<Luma<u8>>(w - a, h - b); return (Arc::new(im), Arc::new(t))
        }
        template_pair(g, A3, 300_000)
    }
    pair!("match_template", |g| { let (im, t) = tm(g); let m = method(g); two("match_template", format!("{} t{} {m:?}", dims!(im), dims!(t)), (im, t), move |(im, t)| di(&match_template(im, t, m)), move |(im, t)| di(&match_template_parallel(im, t, m))) });
    pair!("match_template_with_mask", |g| { let (im, t) = tm(g); let k = if g.r.chance(1, 25) { Arc::new(g.img::<Luma<u8>>(t.width() + 1, t.height())) } else { mask_for(g, &t) }; let m = method(g); two("match_template_with_mask", format!("{} t{} {m:?}", dims!(im), dims!(t)), (im, t, k), move |(im, t, k)| di(&match_template_with_mask(im, t, m, k)), move |(im, t, k)| di(&match_template_with_mask_parallel(im, t, m, k))) });
    v
}

use super::ctx::{ctx, in_ctx, Ctx};
pub fn exec_in(c: &Case, x: Ctx) -> Vec<u64> { in_ctx(x, &|| c.exec()) }

pub fn c01(s: &Spec) -> Plan {
    let mut g = gen(s);
    let mut r = s.rng(2);
    let ps = pairs();
    let n = r.pick(&[1, 1, 1, 2, 3]);
    let mut refs = vec![]; let mut pars = vec![]; let mut cx = vec![];
    let first = r.below(ps.len() as u64) as usize;
    for i in 0..n {
        let p = if i == 0 || r.chance(1, 2) { &ps[first] } else { &ps[r.below(ps.len() as u64) as usize] };
        g.reseed(sub(s.seed, 100 + i as u64));
        let (a, b) = (p.make)(&mut g);
        refs.push(a); pars.push(b); cx.push(ctx(&mut r));
    }
    let conc = n > 1 && r.chance(2, 3);
    let keep: Vec<usize> = (0..n).filter(|i| s.kept(*i)).collect();
    let desc = format!("{} contexts {cx:?} concurrent={conc}", lines(&pars));
    Plan { refs, items: n, desc, io: None, go: Box::new(move |rf| {
        let mut o = Outcome::default();
        if conc {
            let res = on_threads(keep.iter().map(|&i| { let c = pars[i].clone(); let x = cx[i]; Box::new(move || (i, exec_in(&c, x))) as Box<dyn FnOnce() -> (usize, Vec<u64>) + Send> }).collect());
            for x in res { let (i, ds) = x.unwrap(); for d in ds { compare(&mut o, &format!("in context {:?}, concurrent", cx[i]), &pars[i], d, refs_of(rf, i)) } }
        } else {
            for &i in &keep { for d in exec_in(&pars[i], cx[i]) { compare(&mut o, &format!("in context {:?}", cx[i]), &pars[i], d, refs_of(rf, i)) } }
        }
        if let Some(v) = &mut o.viol { v.1 = v.1.replace("alone", "sequential variant") }
        for &i in &keep { o.probe(pars[i].op, 1); }
        o
    }) }
}
