//! The windowing system: a model of the SDL functions the `sdl2` crate calls, under the simulator's control.
//! It delivers a generated event history, fails chosen calls, keeps what every window shows and
//! compares all of it with the reference state while the run proceeds.
#![allow(non_snake_case, clippy::missing_safety_doc)]
use image::{imageops, RgbaImage};
use std::collections::VecDeque;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum To { Win(usize), Stale, Nobody }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev { Quit, Key { down: bool, sym: i32, to: To, repeat: bool }, Win { kind: u8, to: To, w: i32, h: i32 }, Other { ty: u32, to: To }, Pause }
pub const ESC: i32 = 27;
pub const Q: i32 = 113;
pub const CLOSE: u8 = 14;
pub const RESIZED: u8 = 5;
pub const SIZE_CHANGED: u8 = 6;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fn_ { Init, Sub, Window, Renderer, Bounds, Surface, Texture, Copy, Clear, Color, Wait }
pub const FNS: [Fn_; 11] = [Fn_::Init, Fn_::Sub, Fn_::Window, Fn_::Renderer, Fn_::Bounds, Fn_::Surface, Fn_::Texture, Fn_::Copy, Fn_::Clear, Fn_::Color, Fn_::Wait];

pub struct Tex { w: i32, h: i32, px: Vec<u8> }
pub struct Win { id: u32, pub w: i32, pub h: i32, title: Vec<u8>, pub hidden: bool, dead: bool, x: i32, y: i32, shown: Option<Vec<(Rc<Tex>, [i32; 4])>>, presents: u64 }
struct Ren { win: usize, dead: bool, clears: u32, copies: Vec<(Rc<Tex>, [i32; 4])> }
struct Surf { w: i32, h: i32, pitch: i32, mask: [u32; 4], px: *const u8, dead: bool }

pub struct Model {
    // the world
    pub events: VecDeque<Ev>,
    pub fault: Option<(Fn_, u64)>,
    pub id_base: u32, pub bounds: [i32; 4], pub pos: (i32, i32), pub wm_moves: u32, pub quit_on_last: bool,
    counts: [u64; 11],
    pub wins: Vec<Win>, rens: Vec<Ren>, texs: Vec<Option<Rc<Tex>>>, surfs: Vec<Surf>,
    pub inits: i64, subs: i64,
    err: Vec<u8>,
    // what ought to happen
    pub images: Vec<RgbaImage>, pub exact: Vec<bool>, pub size: (u32, u32), pub title: Vec<u8>,
    pub closed: Vec<bool>, cur: Vec<(i32, i32)>, coming: Vec<Option<(i32, i32)>>, pub done: bool, pub failed: Option<Fn_>,
    last: Option<Ev>, presents_before: Vec<u64>, idle: u32,
    pub viol: Option<(String, String)>,
    pub log: crate::Dig, pub delivered: u64, pub redraws: u64, pub closes: u64, pub faults: u64, pub dup: u64, pub checks: u64, pub forced: bool, started: bool,
}
static mut MODEL: Option<Model> = None;
#[allow(static_mut_refs)]
pub fn model() -> &'static mut Model { unsafe { MODEL.get_or_insert_with(Model::new) } }
impl Default for Model { fn default() -> Self { Self::new() } }
impl Model {
    pub fn new() -> Model {
        Model { events: VecDeque::new(), fault: None, id_base: 1, bounds: [0, 0, 1920, 1080], pos: (100, 100), wm_moves: 0, quit_on_last: true, counts: [0; 11], wins: vec![], rens: vec![], texs: vec![], surfs: vec![], inits: 0, subs: 0, err: b"\0".to_vec(),
            images: vec![], exact: vec![], size: (0, 0), title: vec![], closed: vec![], cur: vec![], coming: vec![], done: false, failed: None, last: None, presents_before: vec![], idle: 0, viol: None, log: crate::Dig::new(), delivered: 0, redraws: 0, closes: 0, faults: 0, dup: 0, checks: 0, forced: false, started: false }
    }
    pub fn fail(&mut self, class: &str, detail: String) { if self.viol.is_none() { self.viol = Some((class.into(), detail)) } }
    fn error(&mut self, s: &str) { self.err = s.bytes().chain([0]).collect() }
    /// Does this call fail?
    fn call(&mut self, f: Fn_) -> bool {
        crate::rt::point();
        self.log.u64(f as u64);
        let k = self.counts[f as usize];
        self.counts[f as usize] += 1;
        if self.fault == Some((f, k)) { self.failed = Some(f); self.faults += 1; self.error("injected failure"); return true }
        if let Some(g) = self.failed { if f != g { self.fail("failure swallowed", format!("{g:?} failed, but {f:?} was called afterwards")) } }
        false
    }
    fn id(&self, to: To) -> u32 { match to { To::Win(i) => self.id_base + i as u32, To::Stale => self.id_base.wrapping_add(5000), To::Nobody => 0 } }
    /// Size of the picture in a window of W x H: whole if it fits, else scaled to fit.
    fn fit(&self, i: usize, (ww, wh): (i32, i32), (tw, th): (i32, i32)) -> bool {
        let (w, h) = self.images[i].dimensions();
        let (ww, wh) = (ww as f64, wh as f64);
        if (w as f64) < ww && (h as f64) < wh { return tw as u32 == w && th as u32 == h }
        let s = (ww / w as f64).min(wh / h as f64);
        let near = |t: i32, x: f64| (t as f64 - (x * s).floor().max(1.)).abs() <= 1.;
        near(tw, w as f64) && near(th, h as f64) && tw as f64 <= ww.max(1.) && th as f64 <= wh.max(1.)
    }
    fn frame_ok(&mut self, i: usize) -> Option<String> {
        self.checks += 1;
        let (w, h) = self.images[i].dimensions();
        if w == 0 || h == 0 { return None }
        let Some(f) = &self.wins[i].shown else { return Some(format!("window {i} shows nothing")) };
        if f.len() != 1 { return Some(format!("window {i} shows {} pictures", f.len())) }
        let (t, d) = (f[0].0.clone(), f[0].1);
        let sizes: Vec<(i32, i32)> = std::iter::once(self.cur[i]).chain(self.coming[i]).collect();
        if !sizes.iter().any(|&(ww, wh)| self.fit(i, (ww, wh), (d[2], d[3])) && (d[0] - (ww - d[2]) / 2).abs() <= 1 && (d[1] - (wh - d[3]) / 2).abs() <= 1) { return Some(format!("window {i} of {:?} shows its {w}x{h} image at {d:?}", sizes)) }
        if (t.w, t.h) == (w as i32, h as i32) { return if t.px == *self.images[i].as_raw() { None } else { Some(format!("window {i} shows other pixels than its image's")) } }
        if !self.exact[i] { return None }
        // any reasonable filter is close to this on smooth pictures
        let want = imageops::resize(&self.images[i], t.w as u32, t.h as u32, imageops::FilterType::Triangle);
        let tot: u64 = want.as_raw().iter().zip(&t.px).map(|(a, b)| a.abs_diff(*b) as u64).sum();
        let mean = tot as f64 / t.px.len() as f64;
        if mean > if t.w.min(t.h) < 8 { 45. } else { 14. } { return Some(format!("window {i} shows something else than its scaled image (mean difference {mean:.1})")) }
        None
    }
    /// Between two events: the windows are as the reference says.
    fn settle(&mut self) {
        let what = self.last.map_or("the start".to_string(), |e| format!("{e:?}"));
        if self.done { return self.fail("still waiting", format!("display goes on after {what} although it ought to return")) }
        if let Some(g) = self.failed { return self.fail("failure swallowed", format!("{g:?} failed, but the display waits for events")) }
        if self.wins.len() != self.images.len() { return self.fail("windows", format!("{} windows for {} images", self.wins.len(), self.images.len())) }
        if !self.started {
            self.started = true;
            for i in 0..self.wins.len() {
                let w = &self.wins[i];
                if (w.w, w.h) != (self.size.0 as i32, self.size.1 as i32) || w.title != self.title { let m = format!("window {i} has size {}x{}, title {:?}; wanted {:?} {:?}", w.w, w.h, String::from_utf8_lossy(&w.title), self.size, String::from_utf8_lossy(&self.title)); return self.fail("windows", m) }
            }
        }
        for i in 0..self.wins.len() {
            let (hid, ought) = (self.wins[i].hidden || self.wins[i].dead, self.closed[i]);
            if hid != ought { return self.fail(if hid { "window gone" } else { "window stays" }, format!("after {what} window {i} is {}", if hid { "hidden although it was not closed" } else { "shown although it was closed" })) }
            let fresh = self.presents_before.get(i) != Some(&self.wins[i].presents) || matches!(self.last, Some(Ev::Win { kind: RESIZED | SIZE_CHANGED, .. }));
            if !ought && fresh { if let Some(m) = self.frame_ok(i) { return self.fail("picture", format!("after {what}: {m}")) } }
            if self.presents_before.len() == self.wins.len() && self.wins[i].presents != self.presents_before[i] {
                let concerned = match self.last { Some(Ev::Win { kind: RESIZED, to, .. }) => to == To::Win(i), _ => true };
                if !concerned { return self.fail("wrong window redrawn", format!("after {what} window {i} was redrawn")) }
                self.redraws += 1;
            }
        }
        self.presents_before = self.wins.iter().map(|w| w.presents).collect();
    }
    /// The next event, as the reference sees it.
    fn next(&mut self, may_be_empty: bool) -> Option<Ev> {
        if self.viol.is_some() { self.done = true; return Some(Ev::Quit) }
        let e = match self.events.pop_front() { Some(Ev::Pause) if may_be_empty => return None, Some(Ev::Pause) => return self.next(false), Some(e) => e, None => { self.forced = true; Ev::Quit } };
        self.delivered += 1;
        let n = self.closed.len();
        match e {
            Ev::Quit | Ev::Key { down: true, sym: ESC, .. } => self.done = true,
            Ev::Key { down: true, sym: Q, to: To::Win(i), .. } | Ev::Win { kind: CLOSE, to: To::Win(i), .. } if i < n => {
                if self.closed[i] { self.dup += 1 } else { self.closes += 1 }
                self.closed[i] = true;
                if self.closed.iter().all(|x| *x) { self.done = true }
                // SDL itself asks to quit when the only window is closed
                if n == 1 && self.quit_on_last && matches!(e, Ev::Win { .. }) { self.events.push_front(Ev::Quit) }
            }
            Ev::Win { kind: SIZE_CHANGED, to: To::Win(i), w, h } if i < n => self.coming[i] = Some((w, h)),
            Ev::Win { kind: RESIZED, to: To::Win(i), w, h } if i < n => { self.cur[i] = (w, h); self.coming[i] = None }
            _ => {}
        }
        self.last = Some(e);
        Some(e)
    }
    fn write(&self, e: Ev, out: *mut u32) {
        let mut b = [0u32; 14];
        b[1] = self.delivered as u32 * 7;
        match e {
            Ev::Quit => b[0] = 0x100,
            Ev::Key { down, sym, to, repeat } => { b[0] = if down { 0x300 } else { 0x301 }; b[2] = self.id(to); b[3] = down as u32 | (repeat as u32) << 8; b[4] = match sym { ESC => 41, Q => 20, _ => 4 }; b[5] = sym as u32; }
            Ev::Win { kind, to, w, h } => { b[0] = 0x200; b[2] = self.id(to); b[3] = kind as u32; b[4] = w as u32; b[5] = h as u32; }
            Ev::Other { ty, to } => { b[0] = ty; b[2] = self.id(to); b[3] = 0; }
            Ev::Pause => {}
        }
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), out, 14) }
    }
    /// Everything given back?
    pub fn left_open(&self) -> Option<String> {
        let n = (self.wins.iter().filter(|w| !w.dead).count(), self.rens.iter().filter(|w| !w.dead).count(), self.texs.iter().filter(|t| t.is_some()).count(), self.surfs.iter().filter(|s| !s.dead).count());
        if n != (0, 0, 0, 0) || self.inits != 0 || self.subs != 0 { Some(format!("{} windows, {} renderers, {} textures, {} surfaces, {} initialisations", n.0, n.1, n.2, n.3, self.inits + self.subs)) } else { None }
    }
    fn win(&mut self, p: *mut c_void, f: &str) -> usize { let i = (p as usize).wrapping_sub(0x1000) >> 4; if i >= self.wins.len() || self.wins[i].dead { self.fail("use of a dead window", f.into()); self.wins.push(Win { id: 0, w: 1, h: 1, title: vec![], hidden: false, dead: true, x: 0, y: 0, shown: None, presents: 0 }); return self.wins.len() - 1 } i }
    fn ren(&mut self, p: *mut c_void, f: &str) -> Option<usize> { let i = (p as usize).wrapping_sub(0x2000000) >> 4; if i >= self.rens.len() || self.rens[i].dead { self.fail("use of a dead renderer", f.into()); return None } Some(i) }
}

#[no_mangle] pub unsafe extern "C" fn SDL_Init(_: u32) -> c_int { let m = model(); if m.call(Fn_::Init) { return -1 } m.inits += 1; 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_InitSubSystem(_: u32) -> c_int { let m = model(); if m.call(Fn_::Sub) { return -1 } m.subs += 1; 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_QuitSubSystem(_: u32) { model().subs -= 1 }
#[no_mangle] pub unsafe extern "C" fn SDL_Quit() { let m = model(); m.inits -= 1; for w in m.wins.iter_mut() { w.dead = true } for r in m.rens.iter_mut() { r.dead = true } }
#[no_mangle] pub unsafe extern "C" fn SDL_WasInit(f: u32) -> u32 { if model().inits > 0 { f } else { 0 } }
#[no_mangle] pub unsafe extern "C" fn SDL_GetError() -> *const c_char { model().err.as_ptr() as *const c_char }
#[no_mangle] pub unsafe extern "C" fn SDL_ClearError() { model().error("") }
#[no_mangle] pub unsafe extern "C" fn SDL_GetTicks() -> u32 { let m = model(); (m.delivered * 7) as u32 }
#[no_mangle] pub unsafe extern "C" fn SDL_GetTicks64() -> u64 { model().delivered * 7 }
#[no_mangle] pub unsafe extern "C" fn SDL_Delay(_: u32) { crate::rt::point() }
#[no_mangle] pub unsafe extern "C" fn SDL_CreateWindow(title: *const c_char, _x: c_int, _y: c_int, w: c_int, h: c_int, flags: u32) -> *mut c_void {
    let m = model();
    if m.call(Fn_::Window) { return std::ptr::null_mut() }
    if w > 16384 || h > 16384 { m.error("Window is too large."); return std::ptr::null_mut() }
    let k = m.wins.len();
    let (x, y) = m.pos;
    m.wins.push(Win { id: m.id_base + k as u32, w: w.max(1), h: h.max(1), title: CStr::from_ptr(title).to_bytes().to_vec(), hidden: flags & 8 != 0, dead: false, x, y, shown: None, presents: 0 });
    m.closed.push(false); m.cur.push((w.max(1), h.max(1))); m.coming.push(None);
    (0x1000 + k * 16) as *mut c_void
}
#[no_mangle] pub unsafe extern "C" fn SDL_DestroyWindow(p: *mut c_void) { let m = model(); let i = m.win(p, "SDL_DestroyWindow"); m.wins[i].dead = true }
#[no_mangle] pub unsafe extern "C" fn SDL_GetWindowID(p: *mut c_void) -> u32 { let m = model(); let i = m.win(p, "SDL_GetWindowID"); m.wins[i].id }
#[no_mangle] pub unsafe extern "C" fn SDL_GetWindowFromID(id: u32) -> *mut c_void { let m = model(); m.wins.iter().position(|w| w.id == id && !w.dead).map_or(std::ptr::null_mut(), |k| (0x1000 + k * 16) as *mut c_void) }
#[no_mangle] pub unsafe extern "C" fn SDL_SetWindowMinimumSize(p: *mut c_void, _: c_int, _: c_int) { model().win(p, "SDL_SetWindowMinimumSize"); }
#[no_mangle] pub unsafe extern "C" fn SDL_GetWindowPosition(p: *mut c_void, x: *mut c_int, y: *mut c_int) { let m = model(); let i = m.win(p, "SDL_GetWindowPosition"); if !x.is_null() { *x = m.wins[i].x } if !y.is_null() { *y = m.wins[i].y } }
#[no_mangle] pub unsafe extern "C" fn SDL_SetWindowPosition(p: *mut c_void, x: c_int, y: c_int) { let m = model(); let i = m.win(p, "SDL_SetWindowPosition"); let k = m.wm_moves; let w = &mut m.wins[i]; match k { 0 => { w.x = x; w.y = y } 1 => {} _ => { w.x = x.wrapping_add(k as i32); w.y = y } } }
#[no_mangle] pub unsafe extern "C" fn SDL_GetWindowSize(p: *mut c_void, w: *mut c_int, h: *mut c_int) { let m = model(); let i = m.win(p, "SDL_GetWindowSize"); let c = if i < m.cur.len() { m.cur[i] } else { (1, 1) }; if !w.is_null() { *w = c.0 } if !h.is_null() { *h = c.1 } }
#[no_mangle] pub unsafe extern "C" fn SDL_GetWindowFlags(p: *mut c_void) -> u32 { let m = model(); let i = m.win(p, "SDL_GetWindowFlags"); if m.wins[i].hidden { 8 } else { 4 } }
#[no_mangle] pub unsafe extern "C" fn SDL_GetWindowPixelFormat(p: *mut c_void) -> u32 { model().win(p, "SDL_GetWindowPixelFormat"); 0x16161804 }
#[no_mangle] pub unsafe extern "C" fn SDL_GetWindowTitle(p: *mut c_void) -> *const c_char { model().win(p, "SDL_GetWindowTitle"); c"".as_ptr() }
#[no_mangle] pub unsafe extern "C" fn SDL_HideWindow(p: *mut c_void) { let m = model(); let i = m.win(p, "SDL_HideWindow"); m.log.u64(100 + i as u64); m.wins[i].hidden = true }
#[no_mangle] pub unsafe extern "C" fn SDL_ShowWindow(p: *mut c_void) { let m = model(); let i = m.win(p, "SDL_ShowWindow"); m.wins[i].hidden = false }
#[no_mangle] pub unsafe extern "C" fn SDL_RaiseWindow(p: *mut c_void) { model().win(p, "SDL_RaiseWindow"); }
#[no_mangle] pub unsafe extern "C" fn SDL_GetNumVideoDisplays() -> c_int { 1 }
#[no_mangle] pub unsafe extern "C" fn SDL_GetDisplayBounds(_: c_int, r: *mut c_int) -> c_int { let m = model(); if m.call(Fn_::Bounds) { return -1 } for k in 0..4 { *r.add(k) = m.bounds[k] } 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_GetDisplayUsableBounds(d: c_int, r: *mut c_int) -> c_int { SDL_GetDisplayBounds(d, r) }
#[no_mangle] pub unsafe extern "C" fn SDL_CreateRenderer(p: *mut c_void, _: c_int, _: u32) -> *mut c_void { let m = model(); if m.call(Fn_::Renderer) { return std::ptr::null_mut() } let win = m.win(p, "SDL_CreateRenderer"); m.rens.push(Ren { win, dead: false, clears: 0, copies: vec![] }); (0x2000000 + (m.rens.len() - 1) * 16) as *mut c_void }
#[no_mangle] pub unsafe extern "C" fn SDL_DestroyRenderer(p: *mut c_void) { let m = model(); if let Some(i) = m.ren(p, "SDL_DestroyRenderer") { m.rens[i].dead = true } }
#[no_mangle] pub unsafe extern "C" fn SDL_GetRendererOutputSize(p: *mut c_void, w: *mut c_int, h: *mut c_int) -> c_int { let m = model(); let Some(i) = m.ren(p, "SDL_GetRendererOutputSize") else { return -1 }; let c = m.cur[m.rens[i].win]; *w = c.0; *h = c.1; 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_PixelFormatEnumToMasks(f: u32, bpp: *mut c_int, r: *mut u32, g: *mut u32, b: *mut u32, a: *mut u32) -> c_int {
    let k = match f { 376840196 => [0xff, 0xff00, 0xff0000, 0xff000000u32], 372645892 => [0xff0000, 0xff00, 0xff, 0xff000000], 373694468 => [0xff000000, 0xff0000, 0xff00, 0xff], 377888772 => [0xff00, 0xff0000, 0xff000000, 0xff], _ => { model().error("unmodelled pixel format"); return 0 } };
    *bpp = 32; *r = k[0]; *g = k[1]; *b = k[2]; *a = k[3]; 1
}
#[no_mangle] pub unsafe extern "C" fn SDL_CreateRGBSurfaceFrom(px: *mut c_void, w: c_int, h: c_int, depth: c_int, pitch: c_int, r: u32, g: u32, b: u32, a: u32) -> *mut c_void {
    let m = model();
    if m.call(Fn_::Surface) { return std::ptr::null_mut() }
    if w < 0 || h < 0 || depth != 32 || (pitch as i64) < w as i64 * 4 { m.error("invalid surface"); return std::ptr::null_mut() }
    m.surfs.push(Surf { w, h, pitch, mask: [r, g, b, a], px: px as *const u8, dead: false });
    (0x4000000 + (m.surfs.len() - 1) * 16) as *mut c_void
}
#[no_mangle] pub unsafe extern "C" fn SDL_FreeSurface(p: *mut c_void) { let m = model(); let i = (p as usize - 0x4000000) >> 4; if m.surfs[i].dead { m.fail("use of a dead surface", "SDL_FreeSurface".into()) } m.surfs[i].dead = true }
#[no_mangle] pub unsafe extern "C" fn SDL_CreateTextureFromSurface(r: *mut c_void, s: *mut c_void) -> *mut c_void {
    let m = model();
    if m.call(Fn_::Texture) { return std::ptr::null_mut() }
    if m.ren(r, "SDL_CreateTextureFromSurface").is_none() { return std::ptr::null_mut() }
    let s = &m.surfs[(s as usize - 0x4000000) >> 4];
    if s.w == 0 || s.h == 0 { m.error("Texture dimensions can't be 0"); return std::ptr::null_mut() }
    let sh: Vec<u32> = s.mask.iter().map(|x| x.trailing_zeros()).collect();
    let mut px = Vec::with_capacity((s.w * s.h * 4) as usize);
    // the copy of a row is checked against the bounds of the caller's block
    let mut row = vec![0u32; s.w as usize];
    for y in 0..s.h {
        std::ptr::copy_nonoverlapping(s.px.offset(y as isize * s.pitch as isize), row.as_mut_ptr() as *mut u8, s.w as usize * 4);
        for v in &row { for k in 0..4 { px.push(v.checked_shr(sh[k]).unwrap_or(0xff) as u8) } }
    }
    let t = Rc::new(Tex { w: s.w, h: s.h, px });
    m.texs.push(Some(t));
    (0x8000000 + (m.texs.len() - 1) * 16) as *mut c_void
}
#[no_mangle] pub unsafe extern "C" fn SDL_DestroyTexture(p: *mut c_void) { let m = model(); let i = (p as usize - 0x8000000) >> 4; if m.texs[i].take().is_none() { m.fail("use of a dead texture", "SDL_DestroyTexture".into()) } }
#[no_mangle] pub unsafe extern "C" fn SDL_QueryTexture(p: *mut c_void, f: *mut u32, a: *mut c_int, w: *mut c_int, h: *mut c_int) -> c_int { let m = model(); let Some(t) = &m.texs[(p as usize - 0x8000000) >> 4] else { return -1 }; if !f.is_null() { *f = 376840196 } if !a.is_null() { *a = 0 } if !w.is_null() { *w = t.w } if !h.is_null() { *h = t.h } 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_SetRenderDrawColor(r: *mut c_void, _: u8, _: u8, _: u8, _: u8) -> c_int { let m = model(); if m.call(Fn_::Color) { return -1 } m.ren(r, "SDL_SetRenderDrawColor"); 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_RenderClear(r: *mut c_void) -> c_int { let m = model(); if m.call(Fn_::Clear) { return -1 } if let Some(i) = m.ren(r, "SDL_RenderClear") { m.rens[i].copies.clear(); m.rens[i].clears += 1 } 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_RenderCopy(r: *mut c_void, t: *mut c_void, src: *const c_int, dst: *const c_int) -> c_int {
    let m = model();
    if m.call(Fn_::Copy) { return -1 }
    let Some(i) = m.ren(r, "SDL_RenderCopy") else { return -1 };
    let Some(t) = m.texs[(t as usize - 0x8000000) >> 4].clone() else { m.fail("use of a dead texture", "SDL_RenderCopy".into()); return -1 };
    let c = m.cur[m.rens[i].win];
    let d = if dst.is_null() { [0, 0, c.0, c.1] } else { [*dst, *dst.add(1), *dst.add(2), *dst.add(3)] };
    if !src.is_null() && [*src, *src.add(1), *src.add(2), *src.add(3)] != [0, 0, t.w, t.h] { m.fail("picture", "part of the picture is shown".into()) }
    m.rens[i].copies.push((t, d));
    0
}
#[no_mangle] pub unsafe extern "C" fn SDL_RenderPresent(r: *mut c_void) { let m = model(); if let Some(i) = m.ren(r, "SDL_RenderPresent") { let k = m.rens[i].win; let c = m.rens[i].copies.clone(); m.log.u64(200 + k as u64); m.wins[k].shown = Some(c); m.wins[k].presents += 1 } }
#[no_mangle] pub unsafe extern "C" fn SDL_EventState(_: u32, _: c_int) -> u8 { 1 }
#[no_mangle] pub unsafe extern "C" fn SDL_PumpEvents() {}
#[no_mangle] pub unsafe extern "C" fn SDL_WaitEvent(e: *mut u32) -> c_int { let m = model(); if m.call(Fn_::Wait) { return 0 } m.settle(); let v = m.next(false).unwrap(); m.write(v, e); 1 }
unsafe fn poll(e: *mut u32) -> c_int {
    let m = model();
    crate::rt::point();
    // a polling loop may look again before it notices that it is done
    if m.done && m.idle < 3 { m.idle += 1; return 0 }
    m.settle();
    match m.next(true) { Some(v) => { m.write(v, e); 1 } None => 0 }
}
#[no_mangle] pub unsafe extern "C" fn SDL_WaitEventTimeout(e: *mut u32, _: c_int) -> c_int { poll(e) }
#[no_mangle] pub unsafe extern "C" fn SDL_PollEvent(e: *mut u32) -> c_int { poll(e) }
#[no_mangle] pub unsafe extern "C" fn SDL_free(_: *mut c_void) {}
#[no_mangle] pub unsafe extern "C" fn SDL_SetWindowTitle(p: *mut c_void, _: *const c_char) { model().win(p, "SDL_SetWindowTitle"); }
#[no_mangle] pub unsafe extern "C" fn SDL_SetRenderDrawBlendMode(_: *mut c_void, _: u32) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_SetTextureBlendMode(_: *mut c_void, _: u32) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_SetSurfaceBlendMode(_: *mut c_void, _: u32) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn SDL_SetHint(_: *const c_char, _: *const c_char) -> c_int { 1 }
#[no_mangle] pub unsafe extern "C" fn SDL_FlushEvents(_: u32, _: u32) {}
#[no_mangle] pub unsafe extern "C" fn SDL_FlushEvent(_: u32) {}
