//! C13: image windows under event histories and windowing-system failures.
use super::*;
use simbase::sdl::{model, Ev, Model, To, CLOSE, ESC, FNS, Q, RESIZED, SIZE_CHANGED};
use image::{buffer::ConvertBuffer, ImageBuffer, Luma, Rgb, Rgba, RgbaImage};
use imageproc::window::{display_image, display_multiple_images};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
enum Set { L(Vec<ImageBuffer<Luma<u8>, Vec<u8>>>), R(Vec<ImageBuffer<Rgb<u8>, Vec<u8>>>), A(Vec<RgbaImage>), W(Vec<ImageBuffer<Luma<u16>, Vec<u16>>>) }
struct Show { set: Set, rgba: Vec<RgbaImage>, smooth: Vec<bool>, title: String, w: u32, h: u32, events: Vec<(usize, Ev)>, fault: Option<(simbase::sdl::Fn_, u64)>, single: bool, world: [u64; 8] }

fn picture(g: &mut G) -> (RgbaImage, bool) {
    let (w, h) = match g.r.below(12) { 0 => (g.r.u32(1, 3000), 1), 1 => (1, g.r.u32(1, 2500)), 2 => (g.r.u32(500, 2500), g.r.u32(2, 6)), 3 => (g.r.u32(2, 5), g.r.u32(400, 2000)), 4 => (150, g.r.pick(&[149, 150, 151])), 5 => (g.r.pick(&[149, 150, 151]), 150), 6 if g.r.chance(1, 3) => g.r.pick(&[(0, 0), (0, 7), (9, 0)]), 7 => (g.r.u32(150, 300), g.r.u32(150, 300)), 8 => (g.r.u32(150, 400), g.r.u32(2, 100)), _ => (g.r.u32(1, 160), g.r.u32(1, 120)) };
    let k = g.r.below(4);
    if k == 0 { return (g.img(w, h), false) }
    let c: Vec<[u8; 4]> = (0..4).map(|_| [g.r.next() as u8, g.r.next() as u8, g.r.next() as u8, 255]).collect();
    (RgbaImage::from_fn(w, h, |x, y| if k == 1 { Rgba([(x as u64 * 255 / w as u64) as u8, (y as u64 * 255 / h as u64) as u8, c[0][0], 255]) } else { Rgba(c[(2 * x >= w) as usize + 2 * (2 * y >= h) as usize]) }), true)
}
fn show(g: &mut G, seed: u64, last: bool) -> Show {
    let n = if g.r.chance(1, 80) { g.r.usize(7, 20) } else { g.r.pick(&[0usize, 1, 1, 1, 2, 2, 2, 3, 3, 4, 6]) };
    let mut ims: Vec<(RgbaImage, bool)> = (0..n).map(|i| { g.reseed(sub(seed, 200 + i as u64)); picture(g) }).collect();
    g.reseed(sub(seed, 7));
    let set = match g.r.below(5) {
        0 => Set::L(ims.iter().map(|x| x.0.convert()).collect()),
        1 => Set::R(ims.iter().map(|x| x.0.convert()).collect()),
        2 => Set::W(ims.iter().map(|x| x.0.convert()).collect()),
        _ => Set::A(ims.iter().map(|x| x.0.clone()).collect()),
    };
    // what is displayed is the conversion to RGBA
    let rgba: Vec<RgbaImage> = match &set { Set::L(v) => v.iter().map(|x| x.convert()).collect(), Set::R(v) => v.iter().map(|x| x.convert()).collect(), Set::W(v) => v.iter().map(|x| x.convert()).collect(), Set::A(v) => v.clone() };
    let smooth = ims.drain(..).map(|x| x.1).collect();
    let dim = |g: &mut G| match g.r.below(12) { 0 => 0, 1 => 1, 2 => 149, 3 => 150, 4 => 151, 5 if g.r.chance(1, 8) => g.r.pick(&[16384, 16384, 16385, 1 << 31, u32::MAX, i32::MAX as u32]), _ => g.r.u32(100, 700) };
    let (w, h) = (dim(g), dim(g));
    let title = if g.r.chance(1, 40) { "nul\0inside" } else { g.r.pick(&["image", "", "t\u{e4}\u{20ac}", "a b", "%s"]) }.to_string();
    let to = |g: &mut G| match g.r.below(16) { 0 => To::Stale, 1 => To::Nobody, _ => To::Win(g.r.usize(0, n.max(1) - 1)) };
    let mut ev: Vec<Ev> = vec![];
    let size = |g: &mut G| match g.r.below(8) { 0 => g.r.pick(&[1, 2, 10, 149, 150, 151]), 1 => g.r.u32(1, 150) as i32, _ => g.r.u32(150, 900) as i32 };
    let style = g.r.below(5);
    let many = if g.r.chance(1, 60) { 300 } else { g.r.pick(&[0usize, 1, 3, 8, 20, 40]) };
    for _ in 0..many {
        match g.r.below(16) {
            0..=2 if style != 1 => { let t = to(g); for _ in 0..if g.r.chance(1, 3) { g.r.usize(2, 4) } else { 1 } { ev.push(Ev::Win { kind: CLOSE, to: t, w: 0, h: 0 }) } }
            3 | 4 if style != 1 => { let t = to(g); for k in 0..if g.r.chance(1, 3) { g.r.usize(2, 5) } else { 1 } { ev.push(Ev::Key { down: true, sym: Q, to: t, repeat: k > 0 }) } if g.r.chance(1, 2) { ev.push(Ev::Key { down: false, sym: Q, to: t, repeat: false }) } }
            5..=8 => { let (t, w, h) = (to(g), size(g), size(g)); if g.r.chance(3, 4) { ev.push(Ev::Win { kind: SIZE_CHANGED, to: t, w, h }) } ev.push(Ev::Win { kind: RESIZED, to: t, w, h }) }
            9 => { let k = g.r.pick(&[0u8, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 77]); ev.push(Ev::Win { kind: k, to: to(g), w: g.r.below(900) as i32, h: g.r.below(900) as i32 }) }
            10 => { let s = g.r.pick(&[13, 32, 97, 119, 0x4000_0050, 0, ESC, Q]); ev.push(Ev::Key { down: false, sym: s, to: to(g), repeat: false }) }
            11 | 12 => { let s = g.r.pick(&[13, 32, 97, 119, 81, 0x4000_0050, 0, 9]); ev.push(Ev::Key { down: true, sym: s, to: to(g), repeat: g.r.chance(1, 2) }) }
            13 => ev.push(Ev::Pause),
            _ => ev.push(Ev::Other { ty: g.r.pick(&[0x400, 0x401, 0x402, 0x403, 0x303, 0x900, 0x102, 0x1002, 0x2000, 0x8000, 0x8001, 0x304]), to: to(g) }),
        }
    }
    if style == 2 { for i in 0..n { let p = g.r.usize(0, ev.len()); ev.insert(p, Ev::Win { kind: CLOSE, to: To::Win(i), w: 0, h: 0 }) } }
    if style == 3 || g.r.chance(1, 4) { let p = g.r.usize(0, ev.len()); let e = if g.r.chance(1, 2) { Ev::Quit } else { Ev::Key { down: true, sym: ESC, to: to(g), repeat: false } }; ev.insert(p, e) }
    let fault = if !last && g.r.chance(1, 2) || g.r.chance(1, 6) { Some((g.r.pick(&FNS), { let k = g.r.pick(&[2, 9]); g.r.below(k) })) } else { None };
    let world = [g.r.pick(&[1u64, 1, 0, 7, 1 << 31, 4_294_960_000]).max(1), g.r.pick(&[1920, 1280, 640, 150, 7680]), g.r.below(3000), g.r.below(2000), g.r.below(4), g.r.below(2), 0, 0];
    Show { set, rgba, smooth, title, w, h, events: ev.into_iter().enumerate().collect(), fault, single: g.r.chance(1, 2), world }
}

pub fn c13(s: &Spec) -> Plan {
    let mut g = gen(s);
    let ns = g.r.pick(&[1usize, 1, 1, 2, 3]);
    let mut shows: Vec<Show> = (0..ns).map(|i| { g.reseed(sub(s.seed, 30 + i as u64)); show(&mut g, sub(s.seed, 60 + i as u64), i + 1 == ns) }).collect();
    let mut at = 0;
    // every event and every failure is an item of its own
    for v in shows.iter_mut() { let (b, n) = (at, v.events.len()); at += n + 1; v.events.retain(|(k, _)| s.kept(b + k)); if !s.kept(b + n) { v.fault = None } }
    let desc = shows.iter().map(|v| format!("{} images {:?} in {}x{} windows {:?}, fault {:?}, events {:?}", v.rgba.len(), v.rgba.iter().map(|x| x.dimensions()).collect::<Vec<_>>(), v.w, v.h, v.title, v.fault, v.events.iter().map(|x| x.1).collect::<Vec<_>>())).collect::<Vec<_>>().join("; then ");
    Plan { refs: vec![], items: at, desc, io: None, go: Box::new(move |_| {
        let mut o = Outcome::default();
        let mut log = Dig::new();
        for (k, v) in shows.iter().enumerate() {
            *model() = Model::new();
            let m = model();
            m.events = v.events.iter().map(|x| x.1).collect();
            m.fault = v.fault;
            m.id_base = v.world[0] as u32; m.bounds[2] = v.world[1] as i32; m.pos = (v.world[2] as i32, v.world[3] as i32); m.wm_moves = v.world[4] as u32; m.quit_on_last = v.world[5] == 0;
            m.images = v.rgba.clone(); m.exact = v.smooth.clone(); m.size = (v.w.max(150), v.h.max(150)); m.title = v.title.bytes().collect();
            let single = v.single && v.rgba.len() == 1;
            macro_rules! go { ($x:expr) => { { let r: Vec<_> = $x.iter().collect(); catch_unwind(AssertUnwindSafe(|| if single { display_image(&v.title, r[0], v.w, v.h) } else { display_multiple_images(&v.title, &r, v.w, v.h) })) } } }
            let r = match &v.set { Set::L(x) => go!(x), Set::R(x) => go!(x), Set::A(x) => go!(x), Set::W(x) => go!(x) };
            let m = model();
            log.u64(m.log.get()); log.u64(r.is_ok() as u64);
            o.checks += 1 + m.checks;
            for (n, c) in [("events delivered", m.delivered), ("windows closed", m.closes), ("close requests for closed windows", m.dup), ("redraws", m.redraws), ("windowing failures", m.faults), ("windows opened", m.wins.len() as u64)] { if c > 0 { o.probe(n, c) } }
            let show = format!("display {k}");
            if let Some((c, d)) = m.viol.take() { o.fail(&c, format!("{show}: {d}")) }
            // arguments that no window can be made of
            let refused = !v.rgba.is_empty() && (v.title.contains('\0') || v.w > 16384 || v.h > 16384 || v.rgba.iter().any(|x| x.width() == 0 || x.height() == 0));
            match r {
                Ok(()) => {
                    if let Some(f) = m.failed { o.fail("failure swallowed", format!("{show}: {f:?} failed and the call returned")) }
                    else if !m.done && !v.rgba.is_empty() { o.fail("returned early", format!("{show}: returned after {} events with windows {:?} closed", m.delivered, m.closed)) }
                    else if v.rgba.is_empty() && m.delivered + m.wins.len() as u64 > 0 { o.fail("windows", format!("{show}: windows for no images")) }
                }
                Err(e) => {
                    let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                    std::mem::forget(e);
                    o.probe("displays that panic", 1);
                    if m.failed.is_none() && !refused { o.fail("panic without failure", format!("{show}: {msg}")) }
                }
            }
            if let Some(x) = m.left_open() { o.fail("left open", format!("{show}: {x}")) }
        }
        o.digest = log.get();
        o
    }) }
}
