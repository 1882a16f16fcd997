//! C11: any call with ordinary and unusual arguments under the memory checker, twice with different memory contents.
use super::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Made { pub c: Case, pub random: bool, pub odd: bool }
/// Build a case of `op`; generators may reject odd sizes.
pub fn make(g: &mut G, op: &Op, odd_dims: bool) -> Option<Case> {
    g.odd = odd_dims;
    let c = catch_unwind(AssertUnwindSafe(|| (op.make)(g))).ok();
    g.odd = false;
    c
}
/// A call of one of three kinds: ordinary, ordinary with odd image sizes, odd arguments.
pub fn any_case(g: &mut G, r: &mut Rng, ops: &[Op], odd: &[Op], cap: u64) -> Made {
    loop {
        let k = r.below(10);
        let list = if k < 5 { odd } else { ops };
        let op = pick_op(r, list, |_| true);
        let c0 = g.cap; g.cap = c0.min(cap);
        let c = make(g, &op, k >= 5 && k < 8);
        g.cap = c0;
        if let Some(c) = c { return Made { c, random: is(&op, RANDOM), odd: k < 8 } }
    }
}
pub fn c11(s: &Spec) -> Plan {
    let mut g = gen(s);
    let mut r = s.rng(2);
    let (ops, odd) = (all_ops(), crate::odd::ops());
    let n = r.pick(&[1usize, 1, 2, 3]);
    let cs: Vec<Made> = (0..n).map(|i| { g.reseed(sub(s.seed, 100 + i as u64)); any_case(&mut g, &mut r, &ops, &odd, 30_000) }).collect();
    let th = r.chance(1, 3);
    let desc = format!("{}{}", cs.iter().map(|m| format!("{} [{}]", m.c.op, m.c.desc)).collect::<Vec<_>>().join("; "), if th { " on threads" } else { "" });
    let drop = s.drop.clone();
    Plan { refs: cs.iter().map(|m| m.c.clone()).collect(), items: n, desc, io: None, go: Box::new(move |refs| {
        let mut o = Outcome::default();
        let keep: Vec<usize> = (0..n).filter(|i| !drop.contains(i)).collect();
        let before: Vec<u64> = cs.iter().map(|m| (m.c.inputs)()).collect();
        let got: Vec<u64> = if th && keep.len() > 1 {
            on_threads(keep.iter().map(|&i| { let c = cs[i].c.clone(); Box::new(move || { simbase::rt::scribble(); c.exec() }) as Box<dyn FnOnce() -> u64 + Send> }).collect()).into_iter().map(|x| x.unwrap()).collect()
        } else { keep.iter().map(|&i| { simbase::rt::scribble(); cs[i].c.exec() }).collect() };
        for (&i, d) in keep.iter().zip(got) {
            let m = &cs[i];
            o.probe(if m.odd { "calls with odd arguments" } else { "ordinary calls" }, 1);
            if d == crate::case::PANICKED { o.probe("calls that panic", 1) }
            if m.random { o.checks += 1 } else if refs_of(refs, i).is_some() { compare(&mut o, "with other memory contents", &m.c, d, refs_of(refs, i)) }
            o.checks += 1;
            if (m.c.inputs)() != before[i] { o.fail("shared input changed", format!("{} [{}] changed an argument taken by shared reference", m.c.op, m.c.desc)) }
        }
        o
    }) }
}
