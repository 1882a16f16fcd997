//! Reference models (not instrumented: their steps are not part of the simulated program).
use image::GrayImage;

/// FAST-9 by definition: Some(largest threshold at which the pixel is a corner).
pub fn fast9(im: &GrayImage, x: u32, y: u32) -> Option<u8> {
    const C: [(i32, i32); 16] = [(0, -3), (1, -3), (2, -2), (3, -1), (3, 0), (3, 1), (2, 2), (1, 3), (0, 3), (-1, 3), (-2, 2), (-3, 1), (-3, 0), (-3, -1), (-2, -2), (-1, -3)];
    if x < 3 || y < 3 || x as u64 + 3 >= im.width() as u64 || y as u64 + 3 >= im.height() as u64 { return None }
    let w = im.width() as usize; let raw: &[u8] = im;
    let c = raw[y as usize * w + x as usize] as i32;
    let d: Vec<i32> = C.iter().map(|(a, b)| raw[(y as i32 + b) as usize * w + (x as i32 + a) as usize] as i32 - c).collect();
    let mut best = 0;
    for s in 0..16 {
        let lo = (0..9).map(|k| d[(s + k) % 16]).min().unwrap();
        let hi = (0..9).map(|k| -d[(s + k) % 16]).min().unwrap();
        best = best.max(lo).max(hi);
    }
    if best > 0 { Some((best - 1) as u8) } else { None }
}
