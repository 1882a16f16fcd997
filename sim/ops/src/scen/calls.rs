//! C02-C05: any library call under concurrency, histories, ambient state and pool sizes.
use super::*;

/// A call whose arguments are built anew, at other or re-used addresses, every time it is made.
fn fresh(seed: u64, cap: u64, stream: u64, op: Op) -> Case {
    let make = move || { let mut g = G::new(seed, cap); g.reseed(stream); (op.make)(&mut g) };
    let c = make();
    Case { op: c.op, desc: format!("{} (arguments built anew)", c.desc), run: Arc::new(move || { let c = make(); let b = (c.inputs)(); let d = (c.run)(); if (c.inputs)() == b { d } else { 0x5A5A } }), inputs: Arc::new(|| 0) }
}
fn mk_cases(s: &Spec, n: usize, ok: impl Fn(&Op) -> bool + Copy) -> (Vec<Case>, Rng) {
    let mut g = gen(s);
    let mut r = s.rng(2);
    let mut ops = all_ops();
    let whole = ops.len();
    // unusual arguments; those without a counterpart in a build without rayon stay out
    ops.extend(crate::odd::ops().into_iter().filter(|o| !o.name.contains("parallel")));
    let anew = s.prop != "C02" && r.chance(1, 2);
    // focus: few distinct operations per run, with related arguments
    let nf = r.pick(&[1, 1, 2, 2, 3, 8]);
    let focus: Vec<Op> = (0..nf).map(|_| { let l = if r.chance(1, 6) { whole } else { 0 }; let l = if l > 0 && ops[l..].iter().any(ok) { &ops[l..] } else { &ops[..whole] }; pick_op(&mut r, l, ok) }).collect();
    let mut cs = vec![];
    for i in 0..n {
        let op = if r.chance(5, 6) { r.pick(&focus) } else { pick_op(&mut r, &ops[..whole], ok) };
        // some calls repeat the argument stream of another one up to a point, giving nearly equal arguments
        let stream = if r.chance(1, 3) { sub(s.seed, 100) } else { sub(s.seed, 100 + i as u64) };
        if anew { cs.push(fresh(sub(s.seed, 1), s.cap, stream, op)) } else { g.reseed(stream); cs.push((op.make)(&mut g)) }
    }
    (cs, r)
}
#[cfg(feature = "par")]
fn call(c: &Case, x: u64) -> Vec<u64> { let mut r = Rng::new(x); super::ctx::in_ctx(super::ctx::ctx(&mut r), &|| c.exec()) }
#[cfg(not(feature = "par"))]
fn call(c: &Case, _: u64) -> Vec<u64> { vec![c.exec()] }

pub fn c02(s: &Spec) -> Plan {
    let mut r0 = s.rng(9);
    let implicit = r0.chance(7, 10);
    let n = r0.usize(1, 2);
    let (cs, mut r) = mk_cases(s, n, move |o| o.tags & (RANDOM | EXPL) == 0 && (!implicit || is(o, PAR)));
    let par = r.chance(1, 4) && cs.len() > 1;
    let cx = if r.chance(1, 2) { 0 } else { r.next() | 1 };
    let drop = s.drop.clone();
    Plan { refs: cs.clone(), items: n, desc: lines(&cs), io: None, go: Box::new(move |refs| {
        let mut o = Outcome::default();
        if par {
            let got = on_threads(cs.iter().enumerate().filter(|x| !drop.contains(&x.0)).map(|(i, c)| { let c = c.clone(); Box::new(move || (i, c.exec())) as Box<dyn FnOnce() -> (usize, u64) + Send> }).collect());
            for g in got { let (i, d) = g.unwrap(); compare(&mut o, "concurrently with the pool", &cs[i], d, refs_of(refs, i)) }
        } else {
            for (i, c) in cs.iter().enumerate() { if drop.contains(&i) { continue } for d in if cx == 0 { vec![c.exec()] } else { call(c, cx) } { compare(&mut o, "with the pool", c, d, refs_of(refs, i)) } }
        }
        if let Some(v) = &mut o.viol { v.1 = v.1.replace("alone", "without rayon") }
        o
    }) }
}

pub fn c03(s: &Spec) -> Plan {
    let mut r0 = s.rng(9);
    let nt = r0.usize(2, 4);
    let nc = r0.usize(1, 4);
    let (cs, mut r) = mk_cases(s, nc, |o| !is(o, RANDOM));
    // assignment of cases to threads; the same case on several threads shares its inputs
    let mut items: Vec<(usize, usize)> = vec![];
    // a duel: each thread repeats mostly one call of its own, many times while that is cheap
    let duel = r.chance(1, 3);
    let home: Vec<usize> = (0..nt).map(|_| r.below(cs.len() as u64) as usize).collect();
    for t in 0..nt { for _ in 0..if duel { r.usize(3, 24) } else { r.usize(1, 3) } { items.push((t, if duel && r.chance(4, 5) { home[t] } else { r.below(cs.len() as u64) as usize })) } }
    let total = items.len();
    let items: Vec<(usize, usize)> = items.into_iter().enumerate().filter(|(i, _)| s.kept(*i)).map(|x| x.1).collect();
    let desc = format!("{}; threads: {:?}", lines(&cs), items);
    Plan { refs: cs.clone(), items: total, desc, io: None, go: Box::new(move |refs| {
        let mut o = Outcome::default();
        let before: Vec<u64> = cs.iter().map(|c| (c.inputs)()).collect();
        let mut fs: Vec<Box<dyn FnOnce() -> Vec<(usize, u64)> + Send>> = vec![];
        for t in 0..nt {
            let cheap = (3_000_000 * cs.len() as u64 / (refs.steps + 1) / nt as u64).max(3) as usize;
            let mine: Vec<(usize, Case)> = items.iter().filter(|x| x.0 == t).take(cheap).map(|x| (x.1, cs[x.1].clone())).collect();
            if mine.is_empty() { continue }
            fs.push(Box::new(move || mine.into_iter().map(|(i, c)| (i, c.exec())).collect()));
        }
        for rs in on_threads(fs) { for (i, d) in rs.unwrap() { compare(&mut o, "with concurrent callers", &cs[i], d, refs_of(refs, i)) } }
        for (i, c) in cs.iter().enumerate() {
            o.checks += 1;
            if (c.inputs)() != before[i] { o.fail("shared input changed", format!("{} [{}] changed an argument taken by shared reference", c.op, c.desc)) }
        }
        o
    }) }
}

/// Hundreds of repetitions of a few small calls: counters and generations that wrap, tables that fill up.
fn marathon(s: &Spec, mut r0: Rng) -> Plan {
    let n = r0.usize(1, 3);
    let mut small = s.clone();
    small.cap = s.cap.min(r0.pick(&[4, 30, 150]));
    let want = if r0.chance(1, 6) { 66_500 } else { r0.usize(250, 700) };
    let (cs, mut r) = mk_cases(&small, n, move |o| !is(o, RANDOM) && (want < 1000 || !is(o, PAR | EXPL)));
    let other: Vec<u64> = (0..97).map(|_| r.below(5 * n as u64)).collect();
    let desc = format!("marathon of up to {want} calls: {}", lines(&cs));
    Plan { refs: cs.clone(), items: 0, desc, io: None, go: Box::new(move |refs| {
        let mut o = Outcome::default();
        let times = want.min(((if want > 1000 { 30_000_000 } else { 8_000_000 }) * n as u64 / (refs.steps + 1)) as usize).max(2);
        o.probe("calls of marathons", times as u64);
        for k in 0..times {
            // mostly the first call
            let i = (other[k % 97] as usize).min(4 * n) % n; let i = if other[k % 97] < 4 * n as u64 { 0 } else { i.max((k / 97) % n) };
            compare(&mut o, "after many calls", &cs[i], cs[i].exec(), refs_of(refs, i));
            if o.viol.is_some() { break }
        }
        o
    }) }
}
pub fn c04(s: &Spec) -> Plan {
    let mut r0 = s.rng(9);
    if s.rng(11).chance(1, 20) { return marathon(s, r0) }
    let n = r0.usize(2, 12);
    let (mut cs, mut r) = mk_cases(s, n, |o| !is(o, RANDOM));
    // insert calls that abort with a panic, and repeats
    let mut g = gen(s);
    let aborts = crate::aborts::aborts();
    if r.chance(1, 2) {
        for _ in 0..r.usize(1, 3) { let a = r.pick(&aborts); g.reseed(r.next()); let at = r.usize(0, cs.len()); let c = match r.below(4) { 3 => crate::user::abort(&mut g), #[cfg(feature = "par")] 0 => super::cb::abort(&mut g), #[cfg(feature = "par")] 1 => super::canvas::abort(&mut g), _ => (a.make)(&mut g) }; cs.insert(at, c) }
    }
    for _ in 0..r.usize(0, 2) { let c = cs[r.below(cs.len() as u64) as usize].clone(); cs.push(c) }
    let total = cs.len();
    let hop: Vec<u64> = (0..total).map(|_| r.below(4)).collect();
    let keep: Vec<usize> = (0..total).filter(|i| s.kept(*i)).collect();
    let desc = lines(&keep.iter().map(|&i| cs[i].clone()).collect::<Vec<_>>());
    Plan { refs: cs.clone(), items: total, desc, io: None, go: Box::new(move |refs| {
        let mut o = Outcome::default();
        for &i in &keep {
            let c = &cs[i];
            let d = if hop[i] == 0 { let c = c.clone(); std::thread::spawn(move || c.exec()).join().unwrap() } else { c.exec() };
            compare(&mut o, "after other calls", c, d, refs_of(refs, i));
        }
        o
    }) }
}

pub fn c05(s: &Spec) -> Plan {
    let mut r0 = s.rng(9);
    let n = r0.usize(1, 2);
    let (cs, mut r) = mk_cases(s, n, |o| !is(o, RANDOM));
    let name = r.pick(&["", "main", "worker-7", "tokio-runtime-worker", "0", "ThreadId(1)", "a-thread-name-longer-than-the-fifteen-bytes-that-linux-keeps-of-it", "n\u{e4}me \u{1f680}"]);
    let warm = r.chance(1, 3); // let the thread use entropy, time and the heap before
    let drop = s.drop.clone();
    let th = r.below(4);
    let cx = r.next();
    // again, with other hash keys, stack garbage and heap contents, while it is cheap
    let again = r.usize(1, 6);
    Plan { refs: cs.clone(), items: n, desc: format!("{} thread {name:?} way {th}, up to {again} times", lines(&cs)), io: None, go: Box::new(move |refs| {
        let mut o = Outcome::default();
        let base = refs.steps.max(1);
        let times = again.min((3_000_000 / base).max(1) as usize);
        for (i, c) in cs.iter().enumerate() {
            if drop.contains(&i) { continue }
            for k in 0..times {
                let c2 = c.clone();
                let f = move || {
                    if warm { let m: std::collections::HashMap<u32, u32> = (0..9).map(|i| (i, i)).collect(); std::hint::black_box(m.iter().next().map(|x| *x.0)); std::hint::black_box(std::time::Instant::now()); std::thread::sleep(std::time::Duration::from_micros(3)); }
                    simbase::rt::scribble();
                    if th == 0 { call(&c2, cx) } else { vec![c2.exec()] }
                };
                let ds = if th > 1 { std::thread::Builder::new().name(name.to_string()).spawn(f).unwrap().join().unwrap() } else { f() };
                for d in ds { compare(&mut o, if k == 0 { "in another ambient state" } else { "again in another ambient state" }, c, d, refs_of(refs, i)) }
                if o.viol.is_some() { break }
            }
        }
        o
    }) }
}
