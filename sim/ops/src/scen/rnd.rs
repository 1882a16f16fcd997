//! C06 and C07: functions that use randomness, under every entropy stream.
use super::ctx::{ctx, in_ctx, Ctx};
use super::*;
use crate::case::PANICKED;
use crate::cat::{descriptors, keypoints};
use image::{GrayImage, ImageBuffer, Luma, Rgb};
use imageproc::binary_descriptors::brief::{brief, BriefDescriptor};
use imageproc::binary_descriptors::{match_binary_descriptors, BinaryDescriptor};
use imageproc::corners::oriented_fast;
use imageproc::definitions::Image;
use imageproc::noise::*;
use imageproc::point::Point;
use simbase::digest::dig;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The copying and the in-place form of a noise function; another seed gives other noise.
#[derive(Clone)]
struct Noise { desc: String, im: Arc<GrayImage>, rgb: Arc<image::RgbImage>, f: Arc<Image<Luma<u16>>>, rgba: Arc<image::RgbaImage>, kind: u32, a: f64, b: f64, seed: u64, other: u64, level: f64, grey: u8 }
fn noise(g: &mut G) -> Noise {
    let im = g.gray(4000); let rgb = g.rgb(2000); let f = g.any::<Luma<u16>>(1000);
    let rgba = g.rgba(1000);
    let kind = g.r.below(8) as u32;
    let mean = if g.r.chance(1, 4) { g.r.pick(&[0.0, -0.0, 1.0, 0.5, -1.0, 255.0, -255.0, 1e6, -1e300, f64::NAN, f64::INFINITY]) } else { g.r.f64() * 60.0 - 30.0 };
    let dev = if g.r.chance(1, 4) { g.r.pick(&[0.0, -0.0, 1.0, 1e-3, f64::MIN_POSITIVE, 1e6, 1e300, -1.0, f64::NAN, f64::INFINITY]) } else { g.r.f64() * 50.0 };
    let (a, b) = (mean, dev);
    let rate = g.r.pick(&[0.0, 1.0, 0.5, 0.013, -1.0, 2.0, f64::NAN]);
    let level = g.r.f64(); let grey = g.r.range(60, 200) as u8;
    let rate = if g.r.chance(1, 2) { rate } else { g.r.f64() };
    let seed = if g.r.chance(1, 2) { g.r.next() } else { g.seed() };
    let other = seed ^ 1u64 << g.r.below(64);
    let (a, b) = if kind % 2 == 1 { (rate, 0.0) } else { (a, b) };
    Noise { desc: format!("noise kind {kind} ({a}, {b}) seeds {seed:#x}/{other:#x} on {}x{}", im.width(), im.height()), im, rgb, f, rgba, kind, a, b, seed, other, level, grey }
}
impl Noise {
    fn digests(&self, seed: u64) -> (u64, u64) {
        let (a, b) = (self.a, self.b);
        fn both<T: Clone + simbase::digest::Digest>(x: &T, copying: impl Fn(&T) -> T, in_place: impl Fn(&mut T)) -> (u64, u64) {
            let c = catch_unwind(AssertUnwindSafe(|| dig(&copying(x)))).unwrap_or(PANICKED);
            let m = catch_unwind(AssertUnwindSafe(|| { let mut y = x.clone(); in_place(&mut y); dig(&y) })).unwrap_or(PANICKED);
            (c, m)
        }
        match self.kind {
            0 => both(&*self.im, |x| gaussian_noise(x, a, b, seed), |y| gaussian_noise_mut(y, a, b, seed)),
            1 => both(&*self.im, |x| salt_and_pepper_noise(x, a, seed), |y| salt_and_pepper_noise_mut(y, a, seed)),
            2 => both(&*self.rgb, |x| gaussian_noise(x, a, b, seed), |y| gaussian_noise_mut(y, a, b, seed)),
            3 => both(&*self.rgb, |x| salt_and_pepper_noise(x, a, seed), |y| salt_and_pepper_noise_mut(y, a, seed)),
            4 => both(&*self.f, |x| gaussian_noise(x, a, b, seed), |y| gaussian_noise_mut(y, a, b, seed)),
            5 => both(&*self.rgba, |x| salt_and_pepper_noise(x, a, seed), |y| salt_and_pepper_noise_mut(y, a, seed)),
            6 => both(&*self.rgba, |x| gaussian_noise(x, a, b, seed), |y| gaussian_noise_mut(y, a, b, seed)),
            _ => both(&*self.f, |x| salt_and_pepper_noise(x, a, seed), |y| salt_and_pepper_noise_mut(y, a, seed)),
        }
    }
    fn check(&self, o: &mut Outcome) {
        let (x, y) = self.digests(self.seed);
        let (x2, y2) = self.digests(self.seed);
        o.checks += 3;
        let mut d = Dig(o.digest); d.u64(x); o.digest = d.get();
        if x != y { o.fail("in-place and copying noise differ", self.desc.clone()) }
        if x != x2 || y != y2 { o.fail("noise not repeatable", self.desc.clone()) }
        // images of at least 256 mid-grey pixels: different seeds give different noise
        let salt = self.kind % 2 == 1;
        let (rate, mean, dev) = (0.1 + 0.8 * self.level, 40.0 * self.level - 20.0, 5.0 + 50.0 * self.level);
        let (w, h) = self.im.dimensions();
        let n = w as u64 * h as u64;
        let at = |seed: u64| -> Vec<u64> {
            let mut v = vec![];
            let im: Image<Rgb<u8>> = ImageBuffer::from_pixel(16, 16, Rgb([self.grey; 3]));
            v.push(if salt { dig(&salt_and_pepper_noise(&im, rate, seed)) } else { dig(&gaussian_noise(&im, mean, dev, seed)) });
            if n >= 256 {
                let im: GrayImage = ImageBuffer::from_pixel(w, h, Luma([self.grey]));
                v.push(if salt { dig(&salt_and_pepper_noise(&im, rate, seed)) } else { dig(&gaussian_noise(&im, mean, dev, seed)) });
            }
            v
        };
        // seeds in simple arithmetic relations to one another
        let s = self.seed;
        let mut rel = vec![s, self.other, !s, s.wrapping_neg(), s.swap_bytes(), s.reverse_bits(), s.rotate_left(32), s.rotate_left(1), s.wrapping_add(1), s.wrapping_mul(2), s >> 1, s >> 32, s as u32 as u64, s as u16 as u64, s as i32 as i64 as u64, s ^ s >> 32, s as f64 as u64, s as f32 as u64, s % 1_000_000_007, s.leading_zeros() as u64, 0, u64::MAX];
        rel.sort_unstable(); rel.dedup();
        let im: Image<Rgb<u8>> = ImageBuffer::from_pixel(16, 16, Rgb([self.grey; 3]));
        let mut seen = std::collections::BTreeMap::new();
        for r in rel {
            let d = if salt { dig(&salt_and_pepper_noise(&im, rate, r)) } else { dig(&gaussian_noise(&im, mean, dev, r)) };
            o.checks += 1;
            if let Some(q) = seen.insert(d, r) { o.fail("two seeds give the same noise", format!("{}: seeds {q:#x} and {r:#x} (level {} grey {})", self.desc, self.level, self.grey)) }
        }
        for (i, (u, v)) in at(self.seed).into_iter().zip(at(self.other)).enumerate() {
            o.checks += 1;
            if u == v { o.fail("two seeds give the same noise", format!("{} (image {i}: level {} grey {})", self.desc, self.level, self.grey)) }
        }
    }
}

pub fn c06(s: &Spec) -> Plan {
    let mut g = gen(s);
    let mut r = s.rng(2);
    let ops = all_ops();
    let mut cs: Vec<Case> = vec![];
    let n = r.usize(1, 4);
    let focus = pick_op(&mut r, &ops, |o| is(o, SEEDED));
    for i in 0..n {
        let op = if r.chance(1, 2) { focus.clone() } else { pick_op(&mut r, &ops, |o| is(o, SEEDED)) };
        if r.chance(1, 3) { g.reseed(sub(s.seed, 100)) } else { g.reseed(sub(s.seed, 100 + i as u64)) }
        cs.push((op.make)(&mut g));
    }
    g.reseed(sub(s.seed, 50));
    let ns: Vec<Noise> = (0..r.usize(0, 2)).map(|_| noise(&mut g)).collect();
    // calls around: unseeded ones (which advance entropy and thread-local generators) and pool users
    let around: Vec<Case> = (0..r.usize(0, 3)).map(|_| { let rnd = r.chance(2, 3); let op = pick_op(&mut r, &ops, |o| if rnd { is(o, RANDOM) } else { is(o, PAR) }); let c = g.cap; g.cap = c.min(3000); let x = (op.make)(&mut g); g.cap = c; x }).collect();
    let nt = r.usize(1, 3);
    // (thread, what): 0.. seeded case, 100.. noise, 200.. around
    let mut items: Vec<(usize, usize, Ctx)> = vec![];
    for i in 0..cs.len() { for _ in 0..r.usize(1, 3) { items.push((r.usize(0, nt - 1), i, ctx(&mut r))) } }
    for i in 0..ns.len() { items.push((r.usize(0, nt - 1), 100 + i, Ctx::Plain)) }
    for i in 0..around.len() { items.push((r.usize(0, nt - 1), 200 + i, Ctx::Plain)) }
    for i in (1..items.len()).rev() { let j = r.usize(0, i); items.swap(i, j) }
    let total = items.len();
    let items: Vec<_> = items.into_iter().enumerate().filter(|(i, _)| s.kept(*i)).map(|x| x.1).collect();
    let desc = format!("{}; {}; around {}; threads {:?}", lines(&cs), ns.iter().map(|n| n.desc.clone()).collect::<Vec<_>>().join("; "), lines(&around), items);
    Plan { refs: cs.clone(), items: total, desc, io: None, go: Box::new(move |refs| {
        let mut o = Outcome::default();
        let mut fs: Vec<Box<dyn FnOnce() -> (Vec<(usize, u64, Ctx)>, Outcome) + Send>> = vec![];
        for t in 0..nt {
            let mine: Vec<(usize, Ctx)> = items.iter().filter(|x| x.0 == t).map(|x| (x.1, x.2)).collect();
            if mine.is_empty() { continue }
            let (cs, ns, around) = (cs.clone(), ns.clone(), around.clone());
            fs.push(Box::new(move || {
                let mut o = Outcome::default(); let mut v = vec![];
                for (i, x) in mine {
                    if i >= 200 { around[i - 200].exec(); } else if i >= 100 { ns[i - 100].check(&mut o) } else { for d in in_ctx(x, &|| cs[i].exec()) { v.push((i, d, x)) } }
                }
                (v, o)
            }));
        }
        for res in on_threads(fs) {
            let (v, p) = res.unwrap();
            for (i, d, x) in v { compare(&mut o, &format!("in context {x:?} in another entropy world"), &cs[i], d, refs_of(refs, i)) }
            o.checks += p.checks; let mut d = Dig(o.digest); d.u64(p.digest); o.digest = d.get();
            if let Some((c, m)) = p.viol { o.fail(&c, m) }
        }
        o
    }) }
}

use simbase::model::fast9;
type Bad = Option<(&'static str, String)>;
fn check_fast(im: &GrayImage, thr: Option<u8>, target: usize, edge: u32) -> (u64, Bad, u64) {
    let who = || format!("oriented_fast {}x{} threshold {thr:?} target {target} edge {edge}", im.width(), im.height());
    let r = catch_unwind(AssertUnwindSafe(|| oriented_fast(im, thr, target, edge, None)));
    let Ok(cs) = r else { return (PANICKED, Some(("oriented_fast panics", who())), 0) };
    let (w, h) = im.dimensions();
    let mut seen = std::collections::BTreeSet::new();
    if cs.len() > target { return (0, Some(("more corners than requested", format!("{}: {} corners", who(), cs.len()))), 0) }
    for c in &cs {
        let k = c.corner;
        if k.x >= w || k.y >= h || k.x < edge || k.y < edge || k.x as u64 + edge as u64 >= w as u64 || k.y as u64 + edge as u64 >= h as u64 { return (0, Some(("corner outside the image or inside the margin", format!("{}: corner at {},{}", who(), k.x, k.y))), 0) }
        if !seen.insert((k.x, k.y)) { return (0, Some(("corner reported twice", format!("{}: corner at {},{}", who(), k.x, k.y))), 0) }
        match fast9(im, k.x, k.y) {
            None => return (0, Some(("not a FAST-9 corner", format!("{}: {},{}", who(), k.x, k.y))), 0),
            Some(s) => {
                if thr.is_some_and(|t| s < t) { return (0, Some(("not a FAST-9 corner", format!("{}: {},{} fails at the given threshold", who(), k.x, k.y))), 0) }
                if k.score != s as f32 { return (0, Some(("wrong corner score", format!("{}: {},{} score {} instead of {s}", who(), k.x, k.y, k.score))), 0) }
            }
        }
        if !c.orientation.is_finite() { return (0, Some(("orientation is not a number", who())), 0) }
    }
    (cs.len() as u64 + 1, None, cs.len() as u64)
}
fn check_match(a: &[BriefDescriptor], b: &[BriefDescriptor], t: u32, dups: u64) -> (u64, Bad, u64) {
    let who = || format!("match_binary_descriptors {} x {} descriptors threshold {t} ({dups} planted duplicates)", a.len(), b.len());
    let r = catch_unwind(AssertUnwindSafe(|| match_binary_descriptors(a, b, t, None).into_iter().map(|(p, q)| (p as *const _ as usize, q as *const _ as usize)).collect::<Vec<_>>()));
    let Ok(ms) = r else { return (PANICKED, Some(("match_binary_descriptors panics", who())), 0) };
    let index = |s: &[BriefDescriptor], p: usize| { let z = std::mem::size_of::<BriefDescriptor>(); let base = s.as_ptr() as usize; if p >= base && (p - base) % z == 0 && (p - base) / z < s.len() { Some((p - base) / z) } else { None } };
    let dist = |i: usize, j: usize| -> u32 { a[i].bits.iter().zip(&b[j].bits).map(|(x, y)| (x ^ y).count_ones()).sum() };
    let (mut ua, mut ub) = (vec![0; a.len()], vec![0; b.len()]);
    let mut found = vec![];
    for (p, q) in &ms {
        let (Some(i), Some(j)) = (index(a, *p), index(b, *q)) else { return (0, Some(("match not a member of its list", who())), 0) };
        if dist(i, j) >= t { return (0, Some(("match at or beyond the threshold", format!("{}: distance {}", who(), dist(i, j)))), 0) }
        if a[i].bits.len() != b[j].bits.len() || a[i].hamming_distance(&b[j]) != dist(i, j) { return (0, Some(("wrong Hamming distance", who())), 0) }
        ua[i] += 1; ub[j] += 1; found.push((i, j));
    }
    // the queries are the members of the smaller list
    let q = if a.len() > b.len() { &ub } else { &ua };
    if q.iter().any(|n| *n > 1) { return (0, Some(("query matched twice", who())), 0) }
    if t > 0 {
        for k in 0..q.len() {
            let (dup, got) = if a.len() > b.len() { (a.iter().any(|d| d.bits == b[k].bits), found.iter().find(|m| m.1 == k)) } else { (b.iter().any(|d| d.bits == a[k].bits), found.iter().find(|m| m.0 == k)) };
            if dup && !got.is_some_and(|m| dist(m.0, m.1) == 0) { return (0, Some(("exact duplicate not matched", format!("{}: query {k}", who()))), 0) }
        }
    }
    (ms.len() as u64 + 1, None, ms.len() as u64)
}
fn check_brief(im: &GrayImage, ks: &[Point<u32>], len: usize) -> (u64, Bad, u64) {
    let who = || format!("brief {}x{} {} keypoints length {len}", im.width(), im.height(), ks.len());
    let r = catch_unwind(AssertUnwindSafe(|| brief(im, ks, len, None)));
    let Ok(r) = r else { return (PANICKED, Some(("brief panics", who())), 0) };
    let Ok((ds, ps)) = r else { return (1, if len % 128 == 0 { Some(("brief rejects valid keypoints", who())) } else { None }, 0) };
    if ds.len() != ks.len() || ds.iter().zip(ks).any(|(d, k)| d.corner.x != k.x || d.corner.y != k.y || d.get_size() as usize != len) { return (0, Some(("not one descriptor per keypoint", who())), 0) }
    if ps.len() != len { return (0, Some(("wrong number of test pairs", who())), 0) }
    match catch_unwind(AssertUnwindSafe(|| brief(im, ks, len, Some(&ps)))) {
        Ok(Ok((d2, p2))) => if d2.len() != ds.len() || d2.iter().zip(&ds).any(|(x, y)| x.bits != y.bits) || p2 != ps { return (0, Some(("test pairs do not reproduce the descriptors", who())), 0) },
        _ => return (0, Some(("returned test pairs are rejected", who())), 0),
    }
    (2, None, ds.len() as u64)
}

#[derive(Clone)]
enum Item { Fast(Arc<GrayImage>, Option<u8>, usize, u32), Match(Arc<Vec<BriefDescriptor>>, Arc<Vec<BriefDescriptor>>, u32, u64), Brief(Arc<GrayImage>, Arc<Vec<Point<u32>>>, usize) }
impl Item {
    fn desc(&self) -> String {
        match self {
            Item::Fast(im, t, n, e) => format!("oriented_fast {}x{} threshold {t:?} target {n} edge {e}", im.width(), im.height()),
            Item::Match(a, b, t, d) => format!("match {}x{} threshold {t} duplicates {d}", a.len(), b.len()),
            Item::Brief(im, k, n) => format!("brief {}x{} {} keypoints length {n}", im.width(), im.height(), k.len()),
        }
    }
    fn name(&self) -> &'static str { match self { Item::Fast(_, None, ..) => "oriented_fast", Item::Fast(..) => "oriented_fast with threshold", Item::Match(..) => "match_binary_descriptors", Item::Brief(..) => "brief" } }
    fn run(&self) -> (u64, Bad, u64) { match self { Item::Fast(im, t, n, e) => check_fast(im, *t, *n, *e), Item::Match(a, b, t, d) => check_match(a, b, *t, *d), Item::Brief(im, k, n) => check_brief(im, k, *n) } }
}
fn item(g: &mut G) -> Item {
    match g.r.below(10) {
        0..=4 => {
            let (w, h) = match g.r.below(5) { 0 => (g.r.u32(1, 12), g.r.u32(1, 12)), 1 => (g.r.u32(1, 45), g.r.u32(7, 45)), 2 => (g.r.u32(30, 34), g.r.u32(29, 35)), _ => (g.r.u32(20, 64), g.r.u32(20, 64)) };
            let (w, h) = if w as u64 * h as u64 > g.cap { (w.min(7), h.min(7)) } else { (w, h) };
            let im = Arc::new(g.img::<Luma<u8>>(w, h));
            let n = w as usize * h as usize;
            let x = g.r.usize(0, n);
            let target = g.r.pick(&[0, 1, 5, 60, x, x / 20, n, n + 1, 2 * n, 1_000_000]);
            let y = g.r.u32(0, 20);
            let edge = g.r.pick(&[0, 1, 3, 15, 16, w / 2, (w / 2).saturating_sub(1), h / 2, w, y, y]);
            let thr = if g.r.chance(1, 4) { Some(g.r.pick(&[0, 1, 10, 60, 254, 255])) } else { None };
            Item::Fast(im, thr, target, edge)
        }
        5..=7 => {
            let ch = g.r.usize(1, 3);
            let (na, nb) = (g.r.pick(&[0, 1, 1, 2, 3, 7, 30]), g.r.pick(&[0, 1, 1, 2, 4, 9, 40]));
            let (na, nb) = if g.r.chance(1, 12) { (g.r.usize(1, 300), g.r.usize(1, 300)) } else { (na, nb) };
            let (mut a, mut b) = (descriptors(g, na, ch), descriptors(g, nb, ch));
            let mut d = 0;
            if na > 0 && nb > 0 { for _ in 0..g.r.below(4) { let (i, j) = (g.r.usize(0, na - 1), g.r.usize(0, nb - 1)); if g.r.chance(1, 2) { b[j].bits = a[i].bits.clone() } else { a[i].bits = b[j].bits.clone() } d += 1 } }
            let t = g.r.pick(&[0, 1, 2, 24, 60, 128, 1000]);
            Item::Match(Arc::new(a), Arc::new(b), t, d)
        }
        _ => {
            let (w, h) = (g.r.u32(33, 70), g.r.u32(33, 70));
            let im = Arc::new(g.img::<Luma<u8>>(w, h)); let n = g.r.usize(0, 6);
            let ks = Arc::new(keypoints(g, n, w, h));
            Item::Brief(im, ks, g.r.pick(&[128, 128, 256, 384, 100]))
        }
    }
}
pub fn c07(s: &Spec) -> Plan {
    let mut g = gen(s);
    let mut r = s.rng(2);
    let n = r.usize(1, 4);
    let it: Vec<Item> = (0..n).map(|i| { g.reseed(sub(s.seed, 100 + i as u64)); item(&mut g) }).collect();
    let cx: Vec<Ctx> = it.iter().map(|_| ctx(&mut r)).collect();
    let rep: Vec<u32> = it.iter().map(|i| match i { Item::Fast(im, ..) if im.len() > 1500 => 1, Item::Fast(im, ..) if im.len() > 400 => r.u32(1, 3), Item::Fast(..) => r.u32(1, 8), Item::Match(a, b, ..) if a.len() * b.len() > 5000 => r.u32(1, 2), Item::Match(..) => r.u32(1, 8), Item::Brief(..) => r.u32(1, 24) }).collect();
    let conc = r.chance(1, 2);
    let keep: Vec<usize> = (0..n).filter(|i| s.kept(*i)).collect();
    let desc = format!("{} contexts {cx:?} concurrent={conc}", keep.iter().map(|&i| format!("{} x{}", it[i].desc(), rep[i])).collect::<Vec<_>>().join("; "));
    Plan { refs: vec![], items: n, desc, io: None, go: Box::new(move |_| {
        let mut o = Outcome::default();
        let mut fs: Vec<Box<dyn FnOnce() -> Vec<(usize, (u64, Bad, u64))> + Send>> = vec![];
        for &i in &keep { let (t, x, k) = (it[i].clone(), cx[i], rep[i]); fs.push(Box::new(move || { in_ctx(x, &|| (0..k).map(|_| t.run()).collect::<Vec<_>>()).into_iter().flatten().map(|r| (i, r)).collect() })) }
        let all: Vec<_> = if conc { on_threads(fs).into_iter().flat_map(|x| x.unwrap()).collect() } else { fs.into_iter().flat_map(|f| f()).collect() };
        for (i, (d, bad, n)) in all {
            o.checks += 1; o.probe(it[i].name(), 1); if n > 0 { o.probe("non-empty answers", 1) }
            let mut h = Dig(o.digest); h.u64(d); o.digest = h.get();
            if let Some((c, m)) = bad { o.fail(c, m) }
        }
        o
    }) }
}
