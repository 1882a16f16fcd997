//! Driver: forks one process per simulated run, classifies how it ended, minimises and replays violations, writes evidence.
mod evidence;
mod run;
mod shrink;
use run::*;
use serde_json::{json, Value};
use simbase::rng::sub;
use simbase::rt::SimAlloc;
use simops::{Spec, World};
use std::sync::atomic::Ordering::SeqCst;
use std::time::Instant;

#[global_allocator]
static A: SimAlloc = SimAlloc;

fn arg(k: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }
fn argn(k: &str, d: u64) -> u64 { arg(k).map(|x| x.parse().expect("number")).unwrap_or(d) }

/// The spec of run `i` of a property: a pure function of the base seed.
pub fn spec_of(prop: &str, base: u64, i: u64) -> Spec {
    let tag = prop.bytes().fold(7u64, |a, b| sub(a, b as u64));
    let seed = sub(sub(base, tag), i);
    let mut r = simbase::Rng::new(sub(seed, 3));
    // interference between calls shows in small calls as well as in large ones, and small ones are cheap
    let cap = if prop == "C03" { r.pick(&[60, 60, 300, 300, 2_000, 2_000, 10_000, 60_000, 400_000, 900_000]) } else { r.pick(&[300, 2_000, 10_000, 10_000, 60_000, 60_000, 400_000, 1_200_000]) };
    let mut world = World::random(sub(seed, 4));
    simops::scen::tune(prop, &mut world, &mut r);
    Spec { prop: prop.to_string(), seed, cap, drop: vec![], world, sched: None, occ: vec![] }
}

fn main() {
    no_aslr();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let dbg = std::env::var_os("SIM_DEBUG").is_some();
    std::panic::set_hook(Box::new(move |i| { if unsafe { simbase::rt::sim_tid() } < 0 || dbg { eprintln!("{i}") } }));
    setup();
    claim_scratch();
    match cmd.as_str() {
        "check" => check(),
        "replay" => replay(),
        "selftest" => selftest(),
        "one" => one(),
        "ref-server" => ref_server(),
        "count" => println!("{} calls in the catalogue", simops::cat::ops().len()),
        _ => { eprintln!("usage: simcheck check --prop ID [--runs N] [--secs S] [--tier T] [--seed N] [--evidence FILE] [--replays DIR] [--twin BIN] [--known FILE] | replay FILE | selftest | one"); std::process::exit(2) }
    }
}

fn one() {
    let prop = arg("--prop").unwrap();
    let s = spec_of(&prop, argn("--seed", 1), argn("--index", 0));
    let mut ex = Exec::new(arg("--twin"));
    let t = Instant::now();
    let r = ex.run(&s);
    remove_scratch();
    println!("{}", serde_json::to_string_pretty(&json!({"spec": spec_json(&s), "end": format!("{:?}", r.end), "sample": r.sample, "probes": r.probes, "checks": r.checks, "ref_steps": r.refs.steps, "refs": r.refs.d.iter().map(|x| format!("{x:x?}")).collect::<Vec<_>>(), "steps": r.steps, "threads": r.threads, "switches": r.switches, "digest": format!("{:016x}", r.digest), "sched_hash": format!("{:016x}", r.sched_hash), "faults": r.faults, "ms": t.elapsed().as_millis() as u64})).unwrap());
}

struct Found { index: u64, spec: Spec, class: String, detail: String }

fn check() {
    let t0 = Instant::now();
    let prop = arg("--prop").expect("--prop");
    let base = argn("--seed", 1);
    let runs = argn("--runs", 1000);
    let secs = argn("--secs", 60);
    let first = argn("--first", 0);
    let known = known_list(arg("--known"), &prop);
    let nw = argn("--workers", std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8) as u64) as usize;
    let trace = std::env::var_os("SIM_TRACE").is_some();
    let twin = arg("--twin");
    let sh = Shared::new(nw);
    sh.ctl().next.store(first, SeqCst);
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            pin(w);
            let mut ex = Exec::with(sh.clone(), w, twin.clone());
            let mut st = evidence::Stats::default();
            let mut found: Option<Found> = None;
            loop {
                if sh.ctl().stop.load(SeqCst) != 0 || t0.elapsed().as_secs() >= secs { break }
                let i = sh.ctl().next.fetch_add(1, SeqCst);
                if i >= first + runs { break }
                let s = spec_of(&prop, base, i);
                let tr = Instant::now();
                let r = ex.judge(&s);
                if trace && (tr.elapsed().as_millis() > 1500 || matches!(r.end, End::Skipped(_))) { eprintln!("run {i}: {} ms, {} steps, {} switches, ref steps {}, refs {:?} {:?} {}", tr.elapsed().as_millis(), r.steps, r.switches, r.refs.steps, r.refs.d.iter().position(|x| x.is_none()), r.end, ex.text().chars().take(300).collect::<String>()) }
                st.add(i, &s, &r);
                sh.push_hash(r.sched_hash, r.sample.as_bytes());
                match &r.end {
                    End::Violation(c, d) => {
                        if known.iter().any(|k| k.matches(c, d)) { st.known += 1; continue }
                        found = Some(Found { index: i, spec: s, class: c.clone(), detail: d.clone() });
                        sh.ctl().stop.store(1, SeqCst);
                        break
                    }
                    End::Harness(m) => { st.harness.push(format!("run {i}: {m}")); if st.harness.len() > 20 { break } }
                    _ => {}
                }
            }
            let f = found.map(|f| json!({"index": f.index, "spec": spec_json(&f.spec), "class": f.class, "detail": f.detail}));
            sh.put_text(w, &serde_json::to_string(&json!({"stats": st.json(), "found": f})).unwrap());
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let mut bad = vec![];
    for p in pids { let mut st = 0; unsafe { libc::waitpid(p, &mut st, 0) }; if st != 0 { bad.push(format!("worker ended with status {st:#x}")) } }
    let explore_s = t0.elapsed().as_secs_f64();
    let mut tot = evidence::Stats::default();
    let mut best: Option<Found> = None;
    for w in 0..nw {
        let t = sh.get_text(w);
        let Ok(v) = serde_json::from_str::<Value>(&t) else { bad.push(format!("worker {w} left no result")); continue };
        tot.merge(&v["stats"]);
        if !v["found"].is_null() {
            let f = &v["found"];
            let i = f["index"].as_u64().unwrap();
            if best.as_ref().map_or(true, |b| i < b.index) { best = Some(Found { index: i, spec: spec_from(&f["spec"]), class: f["class"].as_str().unwrap().into(), detail: f["detail"].as_str().unwrap().into() }) }
        }
    }
    for k in &known { println!("KNOWN-FINDING: property={prop} {}", k.text) }
    let mut code = 0;
    let mut report = None;
    if let Some(f) = &best {
        eprintln!("run {} violates {prop}: {}: {}", f.index, f.class, f.detail);
        let mut ex = Exec::with(sh.clone(), 0, twin.clone());
        let (mut m, mut full) = shrink::minimise(&mut ex, &f.spec, &f.class, argn("--shrink", 60));
        if f.class == "no progress" && !matches!(ex.judge(&m).end, End::Violation(..)) { m = f.spec.clone(); full = json!({"note": "not minimised"}) }
        let dir = arg("--replays").unwrap_or("/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{base}-{}.json", f.index);
        let r = ex.run(&m);
        if let End::Violation(c, d) = &r.end {
            std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": prop, "base_seed": base, "run": f.index, "class": c, "violation": d, "workload": r.sample, "spec": spec_json(&m), "preemptions": m.sched.as_ref().map(|s| s.len()), "shrink": full, "original_violation": f.detail})).unwrap()).expect("write replay");
            // replay in a fresh process
            let st = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).args(twin.iter().flat_map(|t| ["--twin".to_string(), t.clone()])).stdout(std::process::Stdio::null()).status();
            let ok = matches!(st.as_ref().map(|s| s.code()), Ok(Some(1)));
            eprintln!("replay in a fresh process: {}", if ok { "reproduced" } else { "NOT reproduced" });
            if ok {
                println!("violation: {c}: {d}");
                println!("VIOLATION property={prop} replay={path}");
                code = 1;
                report = Some(format!("{c}: {d}"));
            } else { code = 3; report = Some(format!("not reproduced: {c}: {d}")) }
        } else { eprintln!("the minimised run did not fail again: {:?}", r.end); code = 3 }
    }
    if code == 0 {
        if !bad.is_empty() || tot.harness.len() as u64 * 100 > tot.runs { for b in bad.iter().chain(tot.harness.iter()).take(10) { eprintln!("harness: {b}") } code = 4 }
        else if tot.runs == 0 { eprintln!("no run completed"); code = 4 }
    }
    if let Some(p) = arg("--evidence") {
        let ev = tot.evidence(&prop, &arg("--tier").unwrap_or("quick".into()), base, &sh, explore_s, t0.elapsed().as_secs_f64(), report, nw);
        std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    eprintln!("{prop}: {} runs, {} skipped, {} inconclusive, {:.1} s, exit {code}", tot.runs, tot.skipped, tot.harness.len(), t0.elapsed().as_secs_f64());
    remove_scratch();
    std::process::exit(code)
}

fn replay() {
    let file = std::env::args().nth(2).expect("file");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&file).expect("replay file")).expect("json");
    let s = spec_from(&v["spec"]);
    let mut ex = Exec::new(arg("--twin"));
    let r = ex.run(&s);
    remove_scratch();
    match &r.end {
        End::Violation(c, d) => {
            println!("workload: {}", r.sample);
            println!("{c}: {d}");
            if *c == v["class"].as_str().unwrap_or("") && *d == v["violation"].as_str().unwrap_or("") {
                println!("reproduced exactly");
                println!("VIOLATION property={} replay={file}", s.prop);
                std::process::exit(1)
            }
            println!("a different violation than recorded"); std::process::exit(1)
        }
        e => { println!("no violation: {e:?}"); std::process::exit(0) }
    }
}

/// Determinism: the same runs in another process, on another CPU and in another order give identical executions.
fn selftest() {
    let n = argn("--runs", 40);
    let props: Vec<String> = arg("--props").map(|p| p.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut bad = 0;
    let mut total = 0;
    for p in &props {
        let sh = Shared::new(2);
        let mut pids = vec![];
        for w in 0..2usize {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                pin(w * 3);
                let mut ex = Exec::with(sh.clone(), w, arg("--twin"));
                let mut out = vec![String::new(); n as usize];
                let junk: Vec<u8> = vec![1; 1 + w * 12345]; // different parent heaps
                for k in 0..n { let i = if w == 0 { k } else { n - 1 - k }; let r = ex.run(&spec_of(p, argn("--seed", 1), i)); out[i as usize] = format!("{:?} {:016x} {:016x} {} {} {} {:?} {:?}", r.end, r.digest, r.sched_hash, r.steps, r.switches, r.threads, r.refs, r.faults) }
                std::hint::black_box(&junk);
                sh.put_text(w, &serde_json::to_string(&out).unwrap());
                unsafe { libc::_exit(0) }
            }
            pids.push(pid);
        }
        for q in pids { let mut st = 0; unsafe { libc::waitpid(q, &mut st, 0) }; }
        let a: Vec<String> = serde_json::from_str(&sh.get_text(0)).unwrap_or_default();
        let b: Vec<String> = serde_json::from_str(&sh.get_text(1)).unwrap_or_default();
        let mut d = 0;
        for i in 0..n as usize { total += 1; if a.get(i) != b.get(i) || a.is_empty() { d += 1; if d <= 3 { println!("{p} run {i} differs:\n  {:?}\n  {:?}", a.get(i), b.get(i)) } } }
        println!("{p}: {n} runs twice, {d} differ");
        bad += d;
    }
    remove_scratch();
    println!("selftest: {total} runs, {bad} not repeatable");
    std::process::exit(if bad > 0 { 1 } else { 0 })
}

/// Isolated results for another build (C02): reads "prop seed cap" lines.
fn ref_server() {
    let mut ex = Exec::new(None);
    let mut l = String::new();
    while std::io::stdin().read_line(&mut l).unwrap_or(0) > 0 {
        let f: Vec<&str> = l.split_whitespace().collect();
        let s = Spec { prop: f[0].into(), seed: f[1].parse().unwrap(), cap: f[2].parse().unwrap(), drop: vec![], world: World::neutral(), sched: None, occ: vec![] };
        let r = ex.refs(&s);
        println!("{} {} {}", r.steps, ex.last_desc_hash, r.d.iter().map(|x| x.map_or("-".to_string(), |d| d.to_string())).collect::<Vec<_>>().join(" "));
        use std::io::Write;
        let _ = std::io::stdout().flush();
        l.clear();
    }
}

pub struct Known { class: String, part: String, pub text: String }
impl Known { fn matches(&self, c: &str, d: &str) -> bool { c == self.class && d.contains(&self.part) } }
/// Lines `known: property=ID class="..." contains="..." text`; `fixed:` lines suppress nothing.
fn known_list(f: Option<String>, prop: &str) -> Vec<Known> {
    let Some(t) = f.and_then(|f| std::fs::read_to_string(f).ok()) else { return vec![] };
    let q = |l: &str, k: &str| l.split(&format!("{k}=\"")).nth(1).and_then(|x| x.split('"').next()).unwrap_or("\u{0}").to_string();
    t.lines().filter(|l| l.starts_with(&format!("known: property={prop} "))).map(|l| Known { class: q(l, "class"), part: q(l, "contains"), text: l.rsplit("\" ").next().unwrap_or("").to_string() }).collect()
}
