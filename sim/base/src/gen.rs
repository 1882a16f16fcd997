//! Input generation: images with varied sizes and contents, small per-run dictionaries of parameters so that
//! different calls of a run have equal or nearly equal arguments.
use crate::rng::Rng;
use image::{GrayImage, ImageBuffer, Luma, LumaA, Pixel, Primitive, Rgb, Rgba, RgbImage, RgbaImage};
use std::sync::Arc;
pub type Img<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sz { Tiny, Small, Med, Large, Long, Huge, Empty }

pub struct G {
    pub r: Rng,
    /// upper bound of an image's area (pixels), lowered by the minimiser
    pub cap: u64,
    dims: Vec<(u32, u32)>,
    sigmas: Vec<f32>,
    gray: Vec<Arc<GrayImage>>,
    rgb: Vec<Arc<RgbImage>>,
    rgba: Vec<Arc<RgbaImage>>,
    /// probability (of 100) of reusing a dictionary entry or pooled image
    pub reuse: u64,
    pub small_only: bool,
    /// prefer empty, minimal and elongated sizes
    pub odd: bool,
}

/// Fill a slice of `n` samples in [0, 1) according to a random pattern of a w x h x c grid.
fn pattern(r: &mut Rng, w: u32, h: u32, c: usize) -> Vec<f32> {
    let n = w as usize * h as usize * c;
    let mut v = Vec::with_capacity(n);
    let k = r.below(12);
    let mut s = Rng::new(r.next());
    let (a, b) = (s.f32(0.0, 1.0), s.f32(0.0, 1.0));
    let per = s.u32(1, 9);
    let px = |i: usize| ((i / c) as u32 % w.max(1), (i / c) as u32 / w.max(1), i % c);
    match k {
        0 | 1 | 2 => for _ in 0..n { v.push(s.f64() as f32) },
        3 => for _ in 0..n { v.push(a) },
        4 => for i in 0..n { let (x, y, ch) = px(i); v.push(((x as f32 * a + y as f32 * b) / (w + h).max(1) as f32 * 2.0 + ch as f32 * 0.1).fract()) },
        5 => for _ in 0..n { v.push(if s.chance(1, 12) { 1.0 - 1e-6 } else { 0.0 }) },
        6 => for _ in 0..n { v.push(if s.chance(1, 2) { 1.0 - 1e-6 } else { 0.0 }) },
        7 => for i in 0..n { let (x, y, _) = px(i); v.push(if (x / per + y / per) % 2 == 0 { a } else { b }) },
        8 => { // rectangles
            let nr = s.usize(1, 6);
            let rs: Vec<(u32, u32, u32, u32, f32)> = (0..nr).map(|_| { let x = s.below(w.max(1) as u64) as u32; let y = s.below(h.max(1) as u64) as u32; (x, y, x + s.u32(1, w.max(1)), y + s.u32(1, h.max(1)), s.f32(0.0, 1.0)) }).collect();
            for i in 0..n { let (x, y, _) = px(i); let mut val = 0.0; for q in &rs { if x >= q.0 && y >= q.1 && x < q.2 && y < q.3 { val = q.4 } } v.push(val) }
        }
        9 => for _ in 0..n { v.push(s.u32(0, 3) as f32 / 4.0) },
        10 => for _ in 0..n { v.push(0.9 + s.f64() as f32 * 0.0999) }, // bright: large sums
        _ => for i in 0..n { let (x, y, _) = px(i); let d = ((x as f32 - w as f32 / 2.0).powi(2) + (y as f32 - h as f32 / 2.0).powi(2)).sqrt(); v.push(((d * 0.07 * (1.0 + a)).sin() * 0.5 + 0.5).min(0.999999)) },
    }
    v
}

pub trait Sample: Primitive { fn from01(x: f32, r: &mut Rng) -> Self; }
impl Sample for u8 { fn from01(x: f32, _: &mut Rng) -> u8 { (x * 256.0) as u8 } }
impl Sample for u16 { fn from01(x: f32, _: &mut Rng) -> u16 { (x * 65536.0) as u16 } }
impl Sample for i16 { fn from01(x: f32, _: &mut Rng) -> i16 { ((x - 0.5) * 60000.0) as i16 } }
impl Sample for i32 { fn from01(x: f32, _: &mut Rng) -> i32 { ((x - 0.5) * 1e6) as i32 } }
impl Sample for u32 { fn from01(x: f32, _: &mut Rng) -> u32 { (x * 1e6) as u32 } }
impl Sample for f32 { fn from01(x: f32, _: &mut Rng) -> f32 { x } }

impl G {
    pub fn new(seed: u64, cap: u64) -> Self {
        let mut r = Rng::new(seed);
        let reuse = r.pick(&[20, 50, 80]);
        let small_only = r.chance(1, 3);
        let s0 = r.f32(0.3, 4.0);
        let sigmas = vec![s0, s0 + 0.001, s0 + 0.06, s0 + 0.3, r.f32(0.2, 8.0), (s0 * 10.0).round() / 10.0];
        let mut g = G { r, cap, dims: vec![], sigmas, gray: vec![], rgb: vec![], rgba: vec![], reuse, small_only, odd: false };
        for _ in 0..3 { let d = g.fresh_dims(); g.dims.push(d); }
        // near-equal and transposed dimensions
        let d = g.dims[0];
        g.dims.push((d.1, d.0));
        g.dims.push((d.0 + 1, d.1));
        g.dims.push((d.0, d.1 + 1));
        g
    }
    /// Same dictionary, another stream: used to draw related cases independently.
    pub fn reseed(&mut self, s: u64) { self.r = Rng::new(s); }
    fn class(&mut self) -> Sz {
        let k = self.r.below(100);
        if self.small_only { return if k < 40 { Sz::Tiny } else { Sz::Small } }
        match k { 0..=21 => Sz::Tiny, 22..=59 => Sz::Small, 60..=83 => Sz::Med, 84..=92 => Sz::Large, 93..=98 => Sz::Long, _ => Sz::Huge }
    }
    pub fn dims_of(&mut self, c: Sz) -> (u32, u32) {
        let r = &mut self.r;
        let odd = |r: &mut Rng, lo: u32, hi: u32| { let v = r.u32(lo, hi); if r.chance(1, 4) { (v / 8 * 8).max(1) } else { v } };
        match c {
            Sz::Empty => r.pick(&[(0, 0), (0, 5), (7, 0), (1, 0), (0, 1)]),
            Sz::Tiny => (r.u32(1, 8), r.u32(1, 8)),
            Sz::Small => (odd(r, 5, 40), odd(r, 5, 40)),
            Sz::Med => (odd(r, 30, 130), odd(r, 30, 130)),
            Sz::Large => (odd(r, 100, 420), odd(r, 100, 420)),
            Sz::Huge => (odd(r, 400, 1300), odd(r, 300, 1000)),
            Sz::Long => { let a = r.u32(1, 3); let b = r.pick(&[257, 1000, 1025, 4097, 20000, 66000]); if r.chance(1, 2) { (a, b) } else { (b, a) } }
        }
    }
    fn fresh_dims(&mut self) -> (u32, u32) { let c = self.class(); let d = self.dims_of(c); self.clip(d) }
    fn clip(&self, d: (u32, u32)) -> (u32, u32) {
        let (mut w, mut h) = d;
        while w as u64 * h as u64 > self.cap { if w >= h { w = (w + 1) / 2 } else { h = (h + 1) / 2 } if w <= 1 && h <= 1 { break } }
        (w, h)
    }
    pub fn dims(&mut self) -> (u32, u32) {
        if self.odd && self.r.chance(3, 4) {
            let k = self.r.below(8);
            let d = match k { 0 | 1 => self.dims_of(Sz::Empty), 2 => (1, 1), 3 => (1, self.r.u32(1, 20)), 4 => (self.r.u32(1, 20), 1), 5 => { let n = self.r.pick(&[257, 1000, 4097]); if self.r.chance(1, 2) { (self.r.u32(1, 2), n) } else { (n, self.r.u32(1, 2)) } } _ => (self.r.u32(1, 4), self.r.u32(1, 4)) };
            return self.clip(d);
        }
        if self.r.chance(self.reuse, 100) { let i = self.r.below(self.dims.len() as u64) as usize; let d = self.dims[i]; return self.clip(d) }
        self.fresh_dims()
    }
    /// Dimensions with bounded area, for expensive operations.
    pub fn dims_cap(&mut self, area: u64) -> (u32, u32) {
        let c = self.cap; self.cap = c.min(area); let d = self.dims(); let d = self.clip(d); self.cap = c; d
    }
    pub fn img<P: Pixel>(&mut self, w: u32, h: u32) -> Img<P> where P::Subpixel: Sample {
        let c = P::CHANNEL_COUNT as usize;
        let p = pattern(&mut self.r, w, h, c);
        let mut s = Rng::new(self.r.next());
        let v: Vec<P::Subpixel> = p.into_iter().map(|x| <P::Subpixel as Sample>::from01(x, &mut s)).collect();
        ImageBuffer::from_raw(w, h, v).unwrap()
    }
    pub fn any<P: Pixel>(&mut self, area: u64) -> Arc<Img<P>> where P::Subpixel: Sample {
        let (w, h) = self.dims_cap(area); Arc::new(self.img(w, h))
    }
    pub fn gray(&mut self, area: u64) -> Arc<GrayImage> {
        if self.r.chance(self.reuse, 100) {
            let ok: Vec<usize> = (0..self.gray.len()).filter(|&i| self.gray[i].width() as u64 * self.gray[i].height() as u64 <= area).collect();
            if !ok.is_empty() { let i = self.r.pick(&ok); return self.gray[i].clone() }
        }
        let (w, h) = self.dims_cap(area);
        let im: Arc<GrayImage> = Arc::new(self.img::<Luma<u8>>(w, h)); self.gray.push(im.clone()); im
    }
    pub fn rgb(&mut self, area: u64) -> Arc<RgbImage> {
        if self.r.chance(self.reuse, 100) {
            let ok: Vec<usize> = (0..self.rgb.len()).filter(|&i| self.rgb[i].width() as u64 * self.rgb[i].height() as u64 <= area).collect();
            if !ok.is_empty() { let i = self.r.pick(&ok); return self.rgb[i].clone() }
        }
        let im: Arc<RgbImage> = self.any::<Rgb<u8>>(area); self.rgb.push(im.clone()); im
    }
    pub fn rgba(&mut self, area: u64) -> Arc<RgbaImage> {
        if self.r.chance(self.reuse, 100) {
            let ok: Vec<usize> = (0..self.rgba.len()).filter(|&i| self.rgba[i].width() as u64 * self.rgba[i].height() as u64 <= area).collect();
            if !ok.is_empty() { let i = self.r.pick(&ok); return self.rgba[i].clone() }
        }
        let im: Arc<RgbaImage> = self.any::<Rgba<u8>>(area); self.rgba.push(im.clone()); im
    }
    pub fn luma_a(&mut self, area: u64) -> Arc<Img<LumaA<u8>>> { self.any::<LumaA<u8>>(area) }
    pub fn sigma(&mut self) -> f32 { if self.r.chance(80, 100) { let s = self.sigmas.clone(); self.r.pick(&s) } else { self.r.f32(0.1, 10.0) } }
    pub fn radius(&mut self, hi: u32) -> u32 { let k = self.r.below(10); (match k { 0 => 0, 1..=4 => 1, 5..=6 => 2, 7 => 3, _ => self.r.u32(0, hi) }).min(hi) }
    pub fn seed(&mut self) -> u64 { let x = self.r.next(); self.r.pick(&[0, 1, 2, 42, u64::MAX, x]) }
    pub fn coord(&mut self, n: u32) -> i32 {
        match self.r.below(12) {
            0 => -1, 1 => n as i32, 2 => 0, 3 => n as i32 - 1,
            4 => self.r.range(-(n as i64) - 20, 2 * n as i64 + 20) as i32,
            _ => self.r.below(n.max(1) as u64) as i32,
        }
    }
    pub fn fcoord(&mut self, n: u32) -> f32 { let c = self.coord(n) as f32; if self.r.chance(1, 2) { c } else { c + self.r.f32(-0.99, 0.99) } }
    pub fn theta(&mut self) -> f32 { let t = self.r.f32(-7.0, 7.0); self.r.pick(&[0.0, std::f32::consts::FRAC_PI_2, std::f32::consts::PI, 0.3, t, t]) }
    pub fn u8(&mut self) -> u8 { self.r.next() as u8 }
}
