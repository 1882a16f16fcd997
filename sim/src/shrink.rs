//! Minimisation: fewer workload items, smaller images, a simpler world, then fewer context switches and faults.
use crate::run::*;
use serde_json::{json, Value};
use simbase::rt::Ent;
use simops::Spec;
use std::time::Instant;

pub fn minimise(ex: &mut Exec, s0: &Spec, class: &str, secs: u64) -> (Spec, Value) {
    let t0 = Instant::now();
    let mut tries = 0u32;
    let mut s = s0.clone();
    let mut last_items = 0;
    let mut fails = |ex: &mut Exec, s: &Spec, items: &mut usize| -> Option<Vec<Ent>> {
        if t0.elapsed().as_secs() >= secs { return None }
        tries += 1;
        let r = ex.run(s);
        if let End::Violation(c, _) = &r.end { if c == class { *items = r.items; return Some(if r.rec_overflow { vec![Ent { at: u64::MAX, kind: 0, arg: 0 }] } else { ex.rec.clone() }) } }
        None
    };
    // workload items
    let mut items = 0;
    if fails(ex, &s, &mut items).is_none() { return (s, json!({"note": "not minimised"})) }
    if items == 0 { items = 16 } // the run died before reporting how many items it has
    last_items += items;
    for i in 0..items {
        let mut c = s.clone(); c.drop.push(i);
        let mut k = 0;
        if c.drop.len() < items && fails(ex, &c, &mut k).is_some() { s = c }
    }
    for cap in [60, 300, 2_000, 10_000, 60_000] { if cap < s.cap { let mut c = s.clone(); c.cap = cap; if fails(ex, &c, &mut 0).is_some() { s = c; break } } }
    // world
    let n = simops::World::neutral();
    let edits: Vec<fn(&mut simops::World, &simops::World)> = vec![
        |w, n| { w.mode = n.mode; w.stall = 0; w.spur = 0 }, |w, _| w.stall = 0, |w, _| w.spur = 0, |w, n| { w.jump = 0; w.clock_base = n.clock_base },
        |w, _| w.pool = 1, |w, _| w.pool = 2, |w, n| { w.ent_mode = n.ent_mode; w.ent_fault = 0 }, |w, _| w.ent_fault = 0, |w, n| w.ent_seed = n.ent_seed, |w, n| w.ncpu = n.ncpu, |w, _| w.env_seed = 0,
        |w, _| w.heap_down = 0, |w, _| w.heap_off = 0, |w, _| w.heap_reuse = 0, |w, n| { w.garbage_mode = n.garbage_mode; w.garbage_seed = n.garbage_seed },
    ];
    for e in edits { let mut c = s.clone(); e(&mut c.world, &n); if c.world != s.world && fails(ex, &c, &mut 0).is_some() { s = c } }
    // explicit schedule
    let mut from = 0;
    if let Some(rec) = fails(ex, &s, &mut 0) {
        if !rec.iter().any(|e| e.at == u64::MAX) {
            let (occ, sched): (Vec<Ent>, Vec<Ent>) = rec.into_iter().partition(|e| e.kind >= 3);
            from = sched.len() + occ.len();
            let mut c = s.clone(); c.sched = Some(sched); c.occ = occ;
            if fails(ex, &c, &mut 0).is_some() {
                s = c;
                for which in 0..2 {
                    let get = |s: &Spec| if which == 0 { s.occ.clone() } else { s.sched.clone().unwrap() };
                    let mut n = 1usize;
                    loop {
                        let cur = get(&s);
                        if cur.is_empty() || t0.elapsed().as_secs() >= secs { break }
                        let size = cur.len().div_ceil(n);
                        let mut progressed = false;
                        let mut at = 0;
                        let mut cur = cur;
                        while at < cur.len() && t0.elapsed().as_secs() < secs {
                            let mut v = cur.clone(); v.drain(at..(at + size).min(cur.len()));
                            let mut c = s.clone();
                            if which == 0 { c.occ = v.clone() } else { c.sched = Some(v.clone()) }
                            if fails(ex, &c, &mut 0).is_some() { s = c; cur = v; progressed = true } else { at += size }
                        }
                        if size <= 1 { if !progressed { break } } else { n = (n * 2).min(cur.len().max(1)) }
                    }
                }
            }
        }
    }
    let left = s.sched.as_ref().map(|x| x.len()).unwrap_or(0) + s.occ.len();
    let dropped = s.drop.len();
    (s, json!({"executions": tries, "items": last_items, "items_dropped": dropped, "schedule_entries_before": from, "schedule_entries_after": left, "seconds": t0.elapsed().as_secs_f64()}))
}
