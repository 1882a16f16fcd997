//! C14: drawing on canvases that record every operation and fail at a chosen one.
use super::ctx::{ctx, in_ctx, Ctx};
use super::*;
use crate::cat::{shape, Shape};
use image::{GenericImage, GenericImageView, Pixel, Rgba, RgbaImage};
use imageproc::drawing::*;
use imageproc::point::Point;
use simbase::digest::dig;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One observed operation: (kind 0 = get, 1 = draw, 2 = blend callback; x; y; colour).
type Rec = (u8, u32, u32, [u8; 4]);
struct Boom(u64);
/// Shared recorder; operation number `fail` panics.
struct Log { ops: RefCell<Vec<Rec>>, fail: u64, failed: Cell<bool>, after: Cell<u64>, oob: Cell<Option<Rec>>, keep: bool, n: Cell<u64> }
impl Log {
    fn new(fail: u64) -> Log { Log { ops: RefCell::new(vec![]), fail, failed: Cell::new(false), after: Cell::new(0), oob: Cell::new(None), keep: true, n: Cell::new(0) } }
    fn op(&self, r: Rec) {
        let k = self.n.get(); self.n.set(k + 1);
        if self.failed.get() { self.after.set(self.after.get() + 1) }
        if self.keep { self.ops.borrow_mut().push(r) }
        if k == self.fail { self.failed.set(true); std::panic::panic_any(Boom(k)) }
    }
}
/// A user-defined canvas. `blend`: draw_pixel blends instead of replacing.
struct Rc<'a> { w: u32, h: u32, px: Vec<Rgba<u8>>, log: &'a Log, blend: bool }
impl<'a> Rc<'a> {
    fn new(im: &RgbaImage, log: &'a Log, blend: bool) -> Self { Rc { w: im.width(), h: im.height(), px: im.pixels().copied().collect(), log, blend } }
    fn at(&self, x: u32, y: u32) -> Option<usize> { if x < self.w && y < self.h { Some(y as usize * self.w as usize + x as usize) } else { None } }
    fn get(&self, x: u32, y: u32) -> Rgba<u8> {
        self.log.op((0, x, y, [0; 4]));
        match self.at(x, y) { Some(i) => self.px[i], None => { self.log.oob.set(Some((0, x, y, [0; 4]))); Rgba([0; 4]) } }
    }
    fn put(&mut self, x: u32, y: u32, c: Rgba<u8>) {
        self.log.op((1, x, y, c.0));
        match self.at(x, y) { Some(i) => if self.blend { self.px[i].blend(&c) } else { self.px[i] = c }, None => self.log.oob.set(Some((1, x, y, c.0))) }
    }
    fn image(&self) -> RgbaImage { RgbaImage::from_fn(self.w, self.h, |x, y| self.px[(y * self.w + x) as usize]) }
}
impl Canvas for Rc<'_> {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) { (self.w, self.h) }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> { self.get(x, y) }
    fn draw_pixel(&mut self, x: u32, y: u32, c: Rgba<u8>) { self.put(x, y, c) }
}
/// The same as a generic image, for the antialiased functions.
struct Ri<'a>(Rc<'a>);
impl GenericImageView for Ri<'_> {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) { (self.0.w, self.0.h) }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> { self.0.get(x, y) }
}
impl GenericImage for Ri<'_> {
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Rgba<u8> { self.0.log.op((0, x, y, [0; 4])); let i = self.0.at(x, y).expect("get_pixel_mut outside the image"); &mut self.0.px[i] }
    fn put_pixel(&mut self, x: u32, y: u32, c: Rgba<u8>) { self.0.put(x, y, c) }
    fn blend_pixel(&mut self, x: u32, y: u32, c: Rgba<u8>) { let mut p = self.0.get(x, y); p.blend(&c); self.0.put(x, y, p) }
}
#[derive(Clone, Debug)]
enum D { Shape(Shape), AaLine((i32, i32), (i32, i32)), AaPoly(Vec<(i32, i32)>), Flood(u32, u32, bool), Polar(Vec<(f32, u32)>) }
impl D {
    fn name(&self) -> &'static str { match self { D::Shape(s) => s.name(), D::AaLine(..) => "antialiased_line", D::AaPoly(..) => "antialiased_polygon", D::Flood(..) => "flood_fill", D::Polar(..) => "polar_lines" } }
}
fn pts(p: &[(i32, i32)]) -> Vec<Point<i32>> { p.iter().map(|p| Point::new(p.0, p.1)).collect() }
fn lines_of(p: &[(f32, u32)]) -> Vec<imageproc::hough::PolarLine> { p.iter().map(|&(r, a)| imageproc::hough::PolarLine { r, angle_in_degrees: a }).collect() }
fn mix(p: Rgba<u8>, q: Rgba<u8>, w: f32) -> Rgba<u8> { let f = |i: usize| (p.0[i] as f32 * w + q.0[i] as f32 * (1.0 - w)).clamp(0.0, 255.0) as u8; Rgba([f(0), f(1), f(2), f(3)]) }
const M: i32 = i32::MAX;
/// Coordinates far outside, up to the limits of the type where the cost does not depend on the distance.
fn far(g: &mut G, n: u32) -> i32 { match g.r.below(8) { 0 => -5000, 1 => 5000, 2 => 40000, 3 => -40000, _ => g.coord(n) } }
fn ext(g: &mut G, n: u32) -> i32 { match g.r.below(10) { 0 => M, 1 => i32::MIN, 2 => M - 1, 3 => M - g.r.u32(0, 40) as i32, 4 => i32::MIN + g.r.u32(0, 40) as i32, _ => far(g, n) } }
fn draw(g: &mut G, w: u32, h: u32) -> D {
    let c = |g: &mut G, n| if g.r.chance(1, 4) { far(g, n) } else { g.coord(n) };
    match g.r.below(24) {
        0..=10 => D::Shape(shape(g, w, h)),
        11 => D::Shape(Shape::Cross(ext(g, w), ext(g, h))),
        12 => { let s = |g: &mut G| match g.r.below(4) { 0 => u32::MAX, 1 => M as u32, 2 => g.r.u32(1, 60000), _ => g.r.u32(1, 90) }; let (a, b) = (s(g), s(g)); D::Shape(Shape::FRect(ext(g, w), ext(g, h), a, b)) }
        13 => D::Shape(Shape::HRect(c(g, w), c(g, h), g.r.u32(1, 3000), g.r.u32(1, 3000))),
        14 => { let r = g.r.pick(&[-3, 0, 1, 200, 3000]); D::Shape(Shape::HCircle(if r < 100 { ext(g, w) } else { c(g, w) }, if r < 100 { ext(g, h) } else { c(g, h) }, r)) }
        15 => D::Shape(Shape::FCircle(c(g, w), c(g, h), g.r.pick(&[-3, 0, 1, 40, 150]))),
        16 => D::Shape(Shape::HEllipse(c(g, w), c(g, h), g.r.pick(&[-2, 0, 1, 7, 900]), g.r.pick(&[-2, 0, 1, 9, 1200]))),
        17 => D::Shape(Shape::FEllipse(c(g, w), c(g, h), g.r.pick(&[-2, 0, 1, 7, 100]), g.r.pick(&[-2, 0, 1, 9, 120]))),
        18 => { let x = g.r.pick(&[12.0, 60.0]); D::Shape(Shape::Text(ext(g, w), ext(g, h), x, "Agj|".into())) }
        19 => D::Shape(Shape::Poly((0..g.r.usize(1, 7)).map(|_| (c(g, w), c(g, h))).collect())),
        20 => D::AaLine((c(g, w), c(g, h)), (c(g, w), c(g, h))),
        21 => D::AaPoly((0..g.r.usize(3, 6)).map(|_| (c(g, w), c(g, h))).collect()),
        22 => D::Flood(g.r.u32(0, w.max(1) - 1), g.r.u32(0, h.max(1) - 1), g.r.chance(1, 4)),
        _ => D::Polar((0..3).map(|_| (g.r.f32(-60.0, 90.0), g.r.u32(0, 180))).collect()),
    }
}
type Ran<T> = Result<T, Box<dyn std::any::Any + Send>>;
/// The recorded run; failing at operation `fail`.
fn recorded(d: &D, im: &RgbaImage, col: Rgba<u8>, log: &Log, blend: bool) -> (Ran<()>, RgbaImage) {
    let b = |p: Rgba<u8>, q: Rgba<u8>, w: f32| { log.op((2, p.0[0] as u32, w.to_bits(), q.0)); mix(p, q, w) };
    match d {
        D::Shape(s) => { let mut c = Rc::new(im, log, blend); let r = catch_unwind(AssertUnwindSafe(|| s.draw_mut(&mut c, col))); (r, c.image()) }
        D::AaLine(p, q) => { let mut c = Ri(Rc::new(im, log, false)); let r = catch_unwind(AssertUnwindSafe(|| draw_antialiased_line_segment_mut(&mut c, *p, *q, col, b))); (r, c.0.image()) }
        D::AaPoly(p) => { let mut c = Ri(Rc::new(im, log, false)); let p = pts(p); let r = catch_unwind(AssertUnwindSafe(|| draw_antialiased_polygon_mut(&mut c, &p, col, b))); (r, c.0.image()) }
        D::Flood(..) | D::Polar(..) => (Ok(()), im.clone()),
    }
}
fn in_place(d: &D, im: &RgbaImage, col: Rgba<u8>) -> Ran<RgbaImage> {
    catch_unwind(AssertUnwindSafe(|| { let mut o = im.clone(); match d {
        D::Shape(s) => s.draw_mut(&mut o, col),
        D::AaLine(p, q) => draw_antialiased_line_segment_mut(&mut o, *p, *q, col, mix),
        D::AaPoly(p) => draw_antialiased_polygon_mut(&mut o, &pts(p), col, mix),
        D::Flood(x, y, same) => { let c = if *same { *im.get_pixel(*x, *y) } else { col }; flood_fill_mut(&mut o, *x, *y, c) }
        D::Polar(l) => imageproc::hough::draw_polar_lines_mut(&mut o, &lines_of(l), col),
    } o }))
}
fn copying(d: &D, im: &RgbaImage, col: Rgba<u8>) -> Ran<RgbaImage> {
    catch_unwind(AssertUnwindSafe(|| match d {
        D::Shape(s) => s.draw_copy(im, col),
        D::AaLine(p, q) => draw_antialiased_line_segment(im, *p, *q, col, mix),
        D::AaPoly(p) => draw_antialiased_polygon(im, &pts(p), col, mix),
        D::Flood(x, y, same) => { let c = if *same { *im.get_pixel(*x, *y) } else { col }; flood_fill(im, *x, *y, c) }
        D::Polar(l) => imageproc::hough::draw_polar_lines(im, &lines_of(l), col),
    }))
}
fn same(a: &Ran<RgbaImage>, b: &Ran<RgbaImage>) -> bool { match (a, b) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false } }
fn go(d: &D, im: &RgbaImage, col: Rgba<u8>, fails: &[u64], whence: &str) -> Outcome {
    let mut o = Outcome::default();
    let who = || format!("{d:?} on {}x{} {whence}", im.width(), im.height());
    let before = dig(im);
    let mut h = Dig::new();
    o.probe(d.name(), 1);
    // forms
    let (a, b) = (in_place(d, im, col), copying(d, im, col));
    o.checks += 2;
    if !same(&a, &b) { o.fail("in-place and copying form differ", who()) }
    if dig(im) != before { o.fail("copying form changed its input", who()) }
    match &a { Ok(x) => { h.u64(dig(x)); } Err(_) => { h.u64(7); o.probe("calls that panic", 1) } }
    if matches!(d, D::Flood(..) | D::Polar(..)) { o.digest = h.get(); return o }
    // a user-defined canvas, fault free
    for blend in [false, true] {
        if blend && !matches!(d, D::Shape(_)) { continue }
        let log = Log::new(u64::MAX);
        let (r, out) = recorded(d, im, col, &log, blend);
        o.checks += 1;
        h.u64(log.n.get());
        if let Some(x) = log.oob.get() { o.fail("operation outside the canvas", format!("{}: {x:?}", who())); break }
        let c: Ran<RgbaImage> = r.map(|_| out);
        let plain = if !blend { in_place(d, im, col) } else { let mut bl = Blend(im.clone()); let D::Shape(s) = d else { unreachable!() }; catch_unwind(AssertUnwindSafe(|| s.draw_mut(&mut bl, col))).map(|_| bl.0) };
        if !same(&c, &plain) { o.fail("user-defined canvas gives another image", format!("{} blend={blend}", who())) }
        let full = log.ops.into_inner();
        let n = full.len() as u64;
        if n == 0 { o.probe("nothing drawn", 1); continue }
        // failing runs
        for f in fails {
            let at = match f % 5 { 0 => 0, 1 => n - 1, _ => (f >> 8) % n };
            let log = Log::new(at);
            let (r, out) = recorded(d, im, col, &log, blend);
            o.checks += 1; o.probe("canvas failures", 1); o.probe(["failing reads", "failing draws", "failing blend functions"][full[at as usize].0 as usize], 1);
            if let Some(x) = log.oob.get() { o.fail("operation outside the canvas", format!("{}: {x:?}", who())) }
            let got = log.ops.borrow();
            let w = || format!("{} failing at operation {at} of {n}", who());
            match r { Ok(()) => o.fail("canvas failure lost", w()), Err(e) => if e.downcast_ref::<Boom>().map(|b| b.0) != Some(at) { o.fail("another panic instead of the canvas failure", w()) } }
            if log.after.get() > 0 { o.fail("operations after the failure", format!("{}: {} more", w(), log.after.get())) }
            if got.len() as u64 != at + 1 || got[..] != full[..=at as usize] { o.fail("not a prefix of the fault-free operations", w()) }
            // what is on the canvas is what the performed operations put there
            let mut want = im.clone();
            for (k, x, y, c) in &full[..at as usize] { if *k == 1 { if blend { want.get_pixel_mut(*x, *y).blend(&Rgba(*c)) } else { want.put_pixel(*x, *y, Rgba(*c)) } } }
            if out != want { o.fail("partial drawing differs from the operations performed", w()) }
            h.u64(dig(&out));
        }
    }
    o.digest = h.get();
    o
}

pub fn c14(s: &Spec) -> Plan {
    let mut g = gen(s);
    let mut r = s.rng(2);
    let n = r.usize(1, 5);
    type It = (D, Arc<RgbaImage>, Rgba<u8>, Vec<u64>, Ctx);
    let it: Vec<It> = (0..n).map(|i| {
        g.reseed(sub(s.seed, 100 + i as u64));
        let im = if g.r.chance(1, 12) { let (w, h) = g.dims_of(simbase::gen::Sz::Empty); Arc::new(g.img::<Rgba<u8>>(w, h)) } else { g.rgba(4000) };
        let d = draw(&mut g, im.width(), im.height());
        let d = if im.is_empty() && matches!(d, D::Flood(..) | D::Polar(..)) { D::Shape(Shape::Cross(0, 0)) } else { d };
        let c = Rgba([g.u8(), g.u8(), g.u8(), g.u8()]);
        let fails = (0..g.r.usize(1, 4)).map(|_| g.r.next() >> 1).collect();
        (d, im, c, fails, if r.chance(1, 2) { Ctx::Plain } else { ctx(&mut r) })
    }).collect();
    let conc = r.chance(1, 3);
    let keep: Vec<usize> = (0..n).filter(|i| s.kept(*i)).collect();
    let desc = keep.iter().map(|&i| { let x = &it[i]; format!("{:?} colour {:?} on {}x{} in {:?} with {} failures", x.0, x.2 .0, x.1.width(), x.1.height(), x.4, x.3.len()) }).collect::<Vec<_>>().join("; ");
    Plan { refs: vec![], items: n, desc, io: None, go: Box::new(move |_| {
        let mut o = Outcome::default();
        let mut fs: Vec<Box<dyn FnOnce() -> Vec<Outcome> + Send>> = vec![];
        for &i in &keep { let (d, im, c, f, x) = it[i].clone(); fs.push(Box::new(move || in_ctx(x, &|| go(&d, &im, c, &f, &format!("in context {x:?}"))))) }
        let all: Vec<Outcome> = if conc { on_threads(fs).into_iter().flat_map(|x| x.unwrap()).collect() } else { fs.into_iter().flat_map(|f| f()).collect() };
        for p in all {
            o.checks += p.checks; let mut d = Dig(o.digest); d.u64(p.digest); o.digest = d.get();
            for (k, n) in &p.probes { o.probe(k, *n) }
            if let Some((c, m)) = p.viol { o.fail(&c, m) }
        }
        o
    }) }
}

/// A drawing call on a failing canvas, as an event of a history (C04).
pub fn abort(g: &mut G) -> Case {
    let im = g.rgba(2000);
    let d = draw(g, im.width(), im.height());
    let d = if matches!(d, D::Flood(..) | D::Polar(..)) { D::Shape(shape(g, im.width(), im.height())) } else { d };
    let k = g.r.pick(&[0, 1, 5, 40, 300]);
    crate::case::mk("abort: failing canvas", format!("{d:?} on {}x{} failing at {k}", im.width(), im.height()), im, move |im| {
        let log = Log::new(k);
        let (r, out) = recorded(&d, im, Rgba([9, 8, 7, 255]), &log, false);
        let ok = r.is_ok();
        if let Err(e) = r { std::mem::forget(e) }
        dig(&out) ^ ok as u64
    })
}
