//! Calling contexts: where in the program (and in the pool) a library call is made.
use super::*;
use image::Luma;
use imageproc::map::map_pixels_parallel;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctx { Plain, Install(usize), Join, Scope, Thread, InParallelCallback, InPlaceScope, Broadcast, Deep(u32), Unwinding }
pub fn ctx(r: &mut Rng) -> Ctx {
    match r.below(13) { 12 => Ctx::Unwinding, 0..=3 => Ctx::Plain, 4 => Ctx::Install(r.usize(1, 6)), 5 => Ctx::Join, 6 => Ctx::Scope, 7 => Ctx::Thread, 8 => Ctx::InParallelCallback, 9 => Ctx::Deep(r.u32(2, 4)), _ => Ctx::InPlaceScope }
}
/// Call `f` (which must not panic) in context `x`; one result per call made.
pub fn in_ctx<T: Send>(x: Ctx, f: &(dyn Fn() -> T + Sync)) -> Vec<T> {
    let v = Mutex::new(vec![]);
    let put = |d: T| v.lock().unwrap().push(d);
    match x {
        Ctx::Plain => put(f()),
        Ctx::Install(n) => { let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap(); p.install(|| put(f())) }
        Ctx::Join => { rayon::join(|| put(f()), || put(f())); }
        Ctx::Scope => rayon::scope(|s| for _ in 0..2 { s.spawn(|_| put(f())) }),
        Ctx::InPlaceScope => rayon::in_place_scope(|s| { s.spawn(|_| put(f())); put(f()) }),
        Ctx::Thread => { std::thread::scope(|s| { s.spawn(|| put(f())); }) }
        Ctx::InParallelCallback => { let im: image::GrayImage = image::ImageBuffer::new(3, 1); map_pixels_parallel(&im, |p: Luma<u8>| { put(f()); p }); }
        Ctx::Broadcast => { rayon::broadcast(|_| put(f())); }
        // from a destructor while the thread unwinds
        Ctx::Unwinding => {
            struct D<'a>(&'a dyn Fn());
            impl Drop for D<'_> { fn drop(&mut self) { (self.0)() } }
            let g = || put(f());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _d = D(&g); std::panic::resume_unwind(Box::new(1u8)) }));
            assert!(r.is_err());
        }
        Ctx::Deep(n) => { fn go(n: u32, g: &(dyn Fn() + Sync)) { if n == 0 { g() } else { rayon::join(|| go(n - 1, g), || std::hint::black_box(n)); } } go(n, &|| put(f())) }
    }
    v.into_inner().unwrap()
}
