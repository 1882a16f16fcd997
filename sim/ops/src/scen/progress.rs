//! C10: every call ends, in any calling context, with stalled workers and callers.
use super::ctx::{ctx, in_ctx, Ctx};
use super::memory::{any_case, Made};
use super::*;
use image::{GrayImage, ImageBuffer, Luma};
use imageproc::filter::{filter, filter_parallel};
use imageproc::geometric_transformations::{warp_with, Interpolation};
use imageproc::kernel::Kernel;
use imageproc::map::*;
use std::sync::Mutex;

/// Where the call is made from, beyond the contexts of `ctx`.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Style { Here(Ctx), Locked(Ctx), InWarp, InFilterParallel, InFilter, InMapSubpixels, Busy(u32), Broadcast, Twice(Ctx), Nested(u32), Callback(usize) }
fn style(r: &mut Rng) -> Style {
    match r.below(20) { 0..=5 => Style::Here(ctx(r)), 6 => Style::Locked(Ctx::Plain), 7 => Style::InWarp, 8 => Style::InFilterParallel, 9 => Style::InFilter, 10 => Style::InMapSubpixels, 11 => Style::Busy(r.u32(1, 6)), 12 => Style::Broadcast, 13 => Style::Twice(ctx(r)), 16..=19 => Style::Callback(r.usize(0, 22)), _ => Style::Nested(r.u32(2, 3)) }
}
static LOCK: Mutex<u32> = Mutex::new(0);
fn nest(n: u32, f: &(dyn Fn() + Sync)) {
    if n == 0 { return f() }
    let im: GrayImage = ImageBuffer::new(2, 1);
    if n % 2 == 0 { map_pixels_parallel(&im, |p: Luma<u8>| { nest(n - 1, f); p }); } else { warp_with(&im, |x, y| { nest(n - 1, f); (x, y) }, Interpolation::Nearest, Luma([0])); }
}
type Around = Arc<dyn Fn(Arc<dyn Fn() + Send + Sync>) + Send + Sync>;
fn run(st: Style, around: Option<&Around>, f: Arc<dyn Fn() + Send + Sync>) {
    if let Some(a) = around { return a(f) }
    let f: &(dyn Fn() + Sync) = &*f;
    let im: GrayImage = ImageBuffer::new(2, 2);
    match st {
        Style::Here(c) => { in_ctx(c, f); }
        // a lock that other threads also want, but no callback does
        Style::Locked(c) => { let mut g = LOCK.lock().unwrap(); in_ctx(c, f); *g += 1; }
        Style::InWarp => { warp_with(&im, |x, y| { f(); (x, y) }, Interpolation::Nearest, Luma([0])); }
        Style::InFilterParallel => { filter_parallel::<_, i32, _, Luma<u8>>(&im, Kernel::new(&[1i32], 1, 1), |x| { f(); x as u8 }); }
        Style::InFilter => { filter::<_, i32, _, Luma<u8>>(&im, Kernel::new(&[1i32], 1, 1), |x| { f(); x as u8 }); }
        Style::InMapSubpixels => { map_subpixels_parallel::<_, _, u8>(&im, |x| { f(); x }); }
        // the pool is busy with other people's jobs
        Style::Busy(n) => { rayon::scope(|s| { for i in 0..n { s.spawn(move |_| std::thread::sleep(std::time::Duration::from_micros(i as u64 * 50))); } f() }) }
        Style::Broadcast => { rayon::broadcast(|_| f()); }
        Style::Twice(c) => { in_ctx(c, &|| in_ctx(Ctx::Join, f)); }
        Style::Nested(n) => nest(n, f),
        Style::Callback(_) => unreachable!(),
    }
}
pub fn c10(s: &Spec) -> Plan {
    let mut g = gen(s);
    let mut r = s.rng(2);
    let (ops, odd) = (all_ops(), crate::odd::ops());
    let par: Vec<Op> = ops.iter().filter(|o| is(o, PAR)).cloned().collect();
    let pool_heavy = r.chance(1, 2);
    let nt = r.pick(&[1usize, 1, 2, 3, 4]);
    let same = r.chance(1, 3);
    let mut cs: Vec<(usize, Style, Option<Around>, Made)> = vec![];
    for t in 0..nt { for j in 0..r.usize(1, 2) {
        g.reseed(sub(s.seed, 100 + if same { j as u64 } else { (t * 8 + j) as u64 }));
        let mut m = if pool_heavy && r.chance(3, 4) { any_case(&mut g, &mut r, &par, &par, 2_000) } else { any_case(&mut g, &mut r, &ops, &odd, 6_000) };
        let st = style(&mut r);
        let around = if let Style::Callback(k) = st {
            let (d, a) = super::cb::around(&mut g, k);
            // often the function is entered again from its own callback
            if r.chance(2, 3) { m.c = super::cb::plain(&mut g, k) }
            m.c.desc = format!("{} from the callback of {d}", m.c.desc);
            Some(a)
        } else { None };
        cs.push((t, st, around, m));
    } }
    let total = cs.len();
    let cs: Vec<_> = cs.into_iter().enumerate().filter(|(i, _)| s.kept(*i)).map(|x| x.1).collect();
    let desc = cs.iter().map(|(t, st, _, m)| format!("thread {t} {st:?}: {} [{}]", m.c.op, m.c.desc)).collect::<Vec<_>>().join("; ");
    Plan { refs: vec![], items: total, desc, io: None, go: Box::new(move |_| {
        let mut o = Outcome::default();
        let mut fs: Vec<Box<dyn FnOnce() -> (u64, u64) + Send>> = vec![];
        let mut by: Vec<Vec<(Style, Option<Around>, Case)>> = vec![vec![]; nt];
        for (t, st, a, m) in cs { o.probe(match st { Style::Here(Ctx::Plain) => "plain calls", Style::Here(_) | Style::Twice(_) => "calls in pool contexts", Style::Locked(_) => "calls under a lock", Style::Busy(_) => "calls with a busy pool", Style::Broadcast => "calls broadcast to the pool", _ => "calls from callbacks" }, 1); by[t].push((st, a, m.c)) }
        for mine in by.into_iter().filter(|m| !m.is_empty()) {
            fs.push(Box::new(move || { let mut n = 0; let done = Arc::new(std::sync::atomic::AtomicU64::new(0)); for (st, a, c) in mine { let d = done.clone(); run(st, a.as_ref(), Arc::new(move || { if c.exec() != crate::case::PANICKED { d.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } })); n += 1 } (n, done.load(std::sync::atomic::Ordering::Relaxed)) }));
        }
        let solo = fs.len() == 1;
        let rs = if solo { vec![Ok(fs.pop().unwrap()())] } else { on_threads(fs) };
        for x in rs { match x { Ok((n, d)) => { o.checks += n; o.probe("calls that returned a value", d); let mut g = simbase::Dig(o.digest); g.u64(d); o.digest = g.get() } Err(_) => o.fail("caller thread died", String::new()) } }
        o
    }) }
}
