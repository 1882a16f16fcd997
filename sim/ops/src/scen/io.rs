//! C12: loading images from files under I/O faults.
use super::*;
use image::{DynamicImage, ImageFormat};
use imageproc::utils::load_image_or_panic;
use simbase::rt::{sim_io, IoFault};
use std::os::unix::ffi::OsStrExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

/// Scratch directory of this process, created and removed by the driver.
pub static ROOT: Mutex<String> = Mutex::new(String::new());

const FORMATS: [(&str, ImageFormat); 12] = [("png", ImageFormat::Png), ("bmp", ImageFormat::Bmp), ("pgm", ImageFormat::Pnm), ("ppm", ImageFormat::Pnm), ("qoi", ImageFormat::Qoi), ("tga", ImageFormat::Tga), ("tiff", ImageFormat::Tiff), ("gif", ImageFormat::Gif), ("ico", ImageFormat::Ico), ("jpg", ImageFormat::Jpeg), ("PNG", ImageFormat::Png), ("pam", ImageFormat::Pnm)];

#[derive(Clone, Debug, PartialEq)]
pub enum FileKind { Good, Cut(usize), Garbage, Empty, Flip(usize, u8), Missing, Dir, WrongExt, NoExt }
#[derive(Clone)]
struct File { name: Vec<u8>, fmt: ImageFormat, kind: FileKind, bytes: Vec<u8> }
#[derive(Clone, Debug)]
struct Load { file: usize, via: u32, faults: Vec<IoFault>, transient: bool, replace: Option<usize> }

fn dynimg(g: &mut G, f: ImageFormat) -> DynamicImage {
    let (w, h) = if f == ImageFormat::Ico { (g.r.u32(1, 40), g.r.u32(1, 40)) } else { let d = g.dims_cap(6_000); if g.r.chance(1, 40) { (g.r.u32(100, 300), g.r.u32(100, 250)) } else { (d.0.clamp(1, 400), d.1.clamp(1, 400)) } };
    match (g.r.below(4), f) {
        (_, ImageFormat::Ico) => DynamicImage::ImageRgba8(g.img(w, h)),
        (_, ImageFormat::Jpeg | ImageFormat::Bmp | ImageFormat::Gif | ImageFormat::Qoi) => DynamicImage::ImageRgb8(g.img(w, h)),
        (0, _) => DynamicImage::ImageLuma8(g.img(w, h)),
        (1, ImageFormat::Png | ImageFormat::Tiff) => DynamicImage::ImageLuma16(g.img(w, h)),
        (2, ImageFormat::Png | ImageFormat::Tiff | ImageFormat::Tga) => DynamicImage::ImageRgba8(g.img(w, h)),
        _ => DynamicImage::ImageRgb8(g.img(w, h)),
    }
}
fn encode(im: &DynamicImage, f: ImageFormat) -> Option<Vec<u8>> { let mut v = std::io::Cursor::new(vec![]); im.write_to(&mut v, f).ok()?; Some(v.into_inner()) }
fn file(g: &mut G, i: usize) -> File {
    loop {
        let (ext, fmt) = g.r.pick(&FORMATS);
        let im = dynimg(g, fmt);
        let Some(mut bytes) = encode(&im, fmt) else { continue };
        let n = bytes.len().max(1);
        let mut stem = g.r.pick(&[&b"im"[..], b"a b", b"x.y", b"\xc3\xa4\xe2\x82\xac", b"\xff\xfe", b"q\"t", b"l'o", b"nl\n", b"-", b"%s{}", b"back\\slash", b"averyveryveryverylongfilenameaveryveryveryverylongfilenameaveryveryveryverylongfilenameaveryveryveryverylongfilename"]).to_vec();
        stem.extend(format!("{i}").bytes());
        let kind = match g.r.below(24) { 0 | 1 => FileKind::Cut(g.r.below(n as u64) as usize), 2 => FileKind::Garbage, 3 => FileKind::Empty, 4 => FileKind::Flip(g.r.below(n as u64) as usize, 1 << g.r.below(8)), 5 | 6 => FileKind::Missing, 7 => FileKind::Dir, 8 => FileKind::WrongExt, 9 => FileKind::NoExt, 10 => FileKind::Cut(n - 1 - g.r.below(20.min(n as u64)) as usize), _ => FileKind::Good };
        match &kind {
            FileKind::Cut(k) => bytes.truncate(*k),
            FileKind::Garbage => { for b in bytes.iter_mut() { *b = g.r.next() as u8 } }
            FileKind::Empty => bytes.clear(),
            FileKind::Flip(k, m) => bytes[*k] ^= m,
            _ => {}
        }
        let ext = if kind == FileKind::WrongExt { g.r.pick(&["bmp", "png", "qoi", "ppm", "xyz", "txt"]) } else { ext };
        let fmt = if kind == FileKind::WrongExt { ImageFormat::from_extension(ext).unwrap_or(fmt) } else { fmt };
        if kind != FileKind::NoExt { stem.push(b'.'); stem.extend(ext.bytes()) }
        return File { name: stem, fmt, kind, bytes };
    }
}
fn faults(g: &mut G, len: usize) -> (Vec<IoFault>, bool) {
    let mut v = vec![];
    let mut transient = true;
    let f = |kind, arg: i32, at| IoFault { kind, arg: arg as u32, at };
    for _ in 0..g.r.pick(&[0usize, 1, 1, 2, 4]) {
        match g.r.below(8) {
            0 => v.push(f(1, libc_eintr(), g.r.below(2))),
            1 | 2 => for k in 0..g.r.u32(1, 6) as u64 { let b = g.r.below(4); v.push(f(2, 0, b + k)) },
            3 => v.push(f(3, g.r.pick(&[1, 2, 3, 7, 64, 1000]), u64::MAX)),
            4 => { let at = g.r.below(6); v.push(f(3, g.r.pick(&[1, 5, 500]), at)) }
            _ => {
                transient = false;
                match g.r.below(6) {
                    0 => v.push(f(1, g.r.pick(&[2, 13, 5, 23, 24, 12, 40, 6]), 0)), // ENOENT EACCES EIO ENFILE EMFILE ENOMEM ELOOP ENXIO
                    1 | 2 => { let at = g.r.below(len as u64 + 1); v.push(f(4, g.r.pick(&[5, 116, 110]), at)) } // EIO ESTALE ETIMEDOUT
                    3 => { let at = g.r.below(len as u64 + 1); v.push(f(5, 0, at)) }
                    4 => { let at = g.r.below(4); v.push(f(6, g.r.pick(&[5, 9, 22, 21]), at)) }
                    _ => { let at = g.r.below(3); v.push(f(7, g.r.pick(&[22, 29, 5]), at)) }
                }
            }
        }
    }
    (v, transient)
}
fn libc_eintr() -> i32 { 4 }
fn same(a: &DynamicImage, b: &DynamicImage) -> bool { a == b }
fn dimg(d: &DynamicImage) -> u64 { let mut x = Dig::new(); x.u64(d.width() as u64); x.u64(d.height() as u64); x.u64(d.color() as u64); for b in d.as_bytes() { x.u64(*b as u64) } x.get() }
pub fn live() -> u64 { unsafe { simbase::rt::sim_io_live() } }

pub fn c12(s: &Spec) -> Plan {
    let mut g = gen(s);
    let nf = g.r.usize(1, 4);
    let mut files: Vec<File> = (0..nf).map(|i| { g.reseed(sub(s.seed, 50 + i as u64)); file(&mut g, i) }).collect();
    g.reseed(sub(s.seed, 3));
    // contents that later replace a file of the same name
    let spare: Vec<File> = (0..g.r.below(3)).map(|i| { let k = g.r.usize(0, nf - 1); let fmt = files[k].fmt; let im = dynimg(&mut g, fmt); let mut f = files[k].clone(); f.bytes = encode(&im, fmt).unwrap_or_default(); if matches!(f.kind, FileKind::Cut(_) | FileKind::Garbage | FileKind::Empty | FileKind::Flip(..) | FileKind::Missing) { f.kind = FileKind::Good } let _ = i; f }).collect();
    let nt = if g.r.chance(1, 3) { g.r.usize(2, 3) } else { 1 };
    let nl = g.r.usize(1, 6);
    let all: Vec<Load> = (0..nl).map(|i| { g.reseed(sub(s.seed, 80 + i as u64)); let file = g.r.usize(0, nf - 1); let (mut faults, mut transient) = if g.r.chance(1, 4) { (vec![], true) } else { faults(&mut g, files[file].bytes.len()) }; if nt > 1 { faults.retain(|f| f.kind == 2 || f.kind == 3); transient = true } let replace = if nt == 1 && !spare.is_empty() && g.r.chance(1, 3) { Some(g.r.usize(0, spare.len() - 1)) } else { None }; Load { file, via: g.r.below(6) as u32, faults, transient, replace } }).collect();
    let loads: Vec<Load> = all.iter().enumerate().filter(|(i, _)| s.kept(*i)).map(|x| x.1.clone()).collect();
    // some decoders give up on an interrupted read: refused or exact, but never another image
    let eintr_any = nt > 1 && loads.iter().any(|l| l.faults.iter().any(|f| f.kind == 2));
    let short_any = loads.iter().any(|l| l.faults.iter().any(|f| f.kind == 3));
    let show = |f: &File| format!("{} {:?} {} bytes {:?}", String::from_utf8_lossy(&f.name).escape_debug(), f.fmt, f.bytes.len(), f.kind);
    let desc = format!("files {}; {} threads; loads {}", files.iter().map(show).collect::<Vec<_>>().join(", "), nt, loads.iter().map(|l| format!("{}{}via {} {:?}", l.file, l.replace.map_or(" ".into(), |r| format!(" replaced by {} ", spare[r].bytes.len())), l.via, l.faults.iter().map(|f| (f.kind, f.arg, f.at)).collect::<Vec<_>>())).collect::<Vec<_>>().join(", "));
    Plan { refs: vec![], items: nl, desc, io: None, go: Box::new(move |_| {
        let mut o = Outcome::default();
        let root = ROOT.lock().unwrap().clone();
        assert!(root.starts_with("/tmp/simio."), "no scratch directory");
        unsafe { sim_io(std::ptr::null(), std::ptr::null(), 0) }
        let path = |f: &File| Path::new(&root).join(std::ffi::OsStr::from_bytes(&f.name));
        let write = |f: &File| {
            let p = path(f);
            let _ = std::fs::remove_dir(&p); let _ = std::fs::remove_file(&p);
            match f.kind { FileKind::Missing => {} FileKind::Dir => { let _ = std::fs::create_dir(&p); } _ => std::fs::write(&p, &f.bytes).expect("scratch file") }
        };
        let _ = std::fs::create_dir_all(&root);
        for f in &files { write(f) }
        let cr = std::ffi::CString::new(root.clone()).unwrap();
        let arm = |fs: &[IoFault]| unsafe { sim_io(cr.as_ptr() as _, fs.as_ptr(), fs.len() as u32) };
        let before = live();
        let verdict = |o: &mut Outcome, f: &File, l: &Load, r: std::thread::Result<DynamicImage>, pb: &Path| {
            o.checks += 1;
            let ext_ok = ImageFormat::from_path(pb).is_ok();
            let decode = |b: &[u8]| catch_unwind(AssertUnwindSafe(|| image::load_from_memory_with_format(b, f.fmt).ok())).ok();
            // what the content decodes to; None: it does not; outer None: the decoder itself panics
            let Some(full) = decode(&f.bytes) else { o.probe("decoder panics", 1); return };
            // the GIF decoder's verdict on damaged data depends on how the reads are cut up
            if f.fmt == ImageFormat::Gif && short_any && (full.is_none() || l.faults.iter().any(|x| x.kind == 5)) { o.probe("damaged GIF with short reads", 1); return }
            let readable = !matches!(f.kind, FileKind::Missing | FileKind::Dir);
            let denied = l.faults.iter().any(|x| x.kind == 1 && x.arg != 4);
            let mut d = Dig(o.digest);
            match r {
                Ok(im) => {
                    d.u64(dimg(&im)); o.digest = d.get();
                    o.probe("images loaded", 1);
                    if denied && readable { o.fail("loaded although it cannot be opened", format!("load of file {} {:?} returned an image", l.file, f.kind)); return }
                    if !readable { o.fail("image from nowhere", format!("load of {:?} file {} returned an image", f.kind, l.file)); return }
                    let cut = l.faults.iter().filter(|x| x.kind == 5).map(|x| x.at as usize).min();
                    let ok = full.as_ref().is_some_and(|x| same(x, &im))
                        || cut.is_some_and(|c| c < f.bytes.len() && decode(&f.bytes[..c]).flatten().is_some_and(|x| same(&x, &im)))
                        || (!ext_ok || f.kind == FileKind::WrongExt) && image::load_from_memory(&f.bytes).is_ok_and(|x| same(&x, &im));
                    if !ok { o.fail("different image", format!("load {:?} of file {} {:?} gave {}x{} {:?}, its content is {}", l.faults, l.file, f.kind, im.width(), im.height(), im.color(), full.as_ref().map_or("undecodable".into(), |x| format!("{}x{} {:?}", x.width(), x.height(), x.color())))) }
                }
                Err(e) => {
                    d.u64(7); o.digest = d.get();
                    o.probe("loads that panic", 1);
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()));
                    std::mem::forget(e);
                    let Some(m) = m else { o.fail("panic without message", format!("load of file {} {:?}", l.file, f.kind)); return };
                    if !m.contains(&format!("{pb:?}")) && !m.contains(&*pb.to_string_lossy()) { o.fail("message without path", format!("load of file {} {:?}: message is {:?}", l.file, f.kind, m.replace(&root, "ROOT"))); return }
                    let eintr = eintr_any || l.faults.iter().any(|f| f.kind == 2);
                    if eintr && full.is_some() { o.probe("interrupted loads refused", 1) }
                    if l.transient && !eintr && readable && ext_ok && full.is_some() { o.fail("good file refused", format!("load {:?} of file {} {:?} panicked", l.faults, l.file, f.kind)) }
                }
            }
        };
        let call = |l: &Load, f: &File| {
            let pb: PathBuf = match l.via { 3 => Path::new(&root).join(".").join(std::ffi::OsStr::from_bytes(&f.name)), 4 => { let mut s = root.clone(); s.push('/'); Path::new(&s).join(std::ffi::OsStr::from_bytes(&f.name)) } _ => Path::new(&root).join(std::ffi::OsStr::from_bytes(&f.name)) };
            let r = catch_unwind(AssertUnwindSafe(|| match (l.via, pb.to_str()) { (0, _) => load_image_or_panic(&pb), (1, Some(s)) => load_image_or_panic(s), (2, Some(s)) => load_image_or_panic(s.to_string()), (5, _) => load_image_or_panic(pb.as_os_str()), _ => load_image_or_panic(pb.as_path()) }));
            (r, pb)
        };
        if nt == 1 {
            for l in &loads {
                if let Some(k) = l.replace {
                    unsafe { sim_io(std::ptr::null(), std::ptr::null(), 0) }
                    let f = &spare[k]; write(f);
                    for q in files.iter_mut() { if q.name == f.name { *q = f.clone() } }
                    o.probe("files replaced", 1);
                }
                arm(&l.faults);
                let f = &files[l.file];
                let (r, pb) = call(l, f);
                let open = live() - before;
                unsafe { sim_io(std::ptr::null(), std::ptr::null(), 0) }
                if !l.faults.is_empty() { o.probe(if l.transient { "loads with transient faults" } else { "loads with permanent faults" }, 1) }
                if open != 0 { o.fail("descriptor left open", format!("load {:?} of file {} {:?} left {open} descriptors open", l.faults, l.file, f.kind)) }
                verdict(&mut o, f, l, r, &pb);
            }
        } else {
            let fs: Vec<IoFault> = loads.iter().flat_map(|l| l.faults.iter().filter(|f| f.kind == 2 || f.kind == 3).cloned()).collect();
            arm(&fs);
            let got: Vec<_> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..nt).map(|t| { let (loads, call, files) = (&loads, &call, &files); sc.spawn(move || loads.iter().enumerate().filter(|(i, _)| i % nt == t).map(|(i, l)| (i, call(l, &files[l.file]))).collect::<Vec<_>>()) }).collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            let open = live() - before;
            unsafe { sim_io(std::ptr::null(), std::ptr::null(), 0) }
            if open != 0 { o.fail("descriptor left open", format!("{open} descriptors left open")) }
            o.probe("concurrent loads", loads.len() as u64);
            for v in got { match v { Ok(v) => for (i, (r, pb)) in v { verdict(&mut o, &files[loads[i].file], &loads[i], r, &pb) }, Err(_) => o.fail("caller thread died", String::new()) } }
        }
        for f in files.iter().chain(&spare) { let p = path(f); let _ = std::fs::remove_file(&p); let _ = std::fs::remove_dir(&p); }
        o
    }) }
}
