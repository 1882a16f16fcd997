//! One simulated run: reference executions, the main execution, classification.
use serde_json::{json, Value};
use simbase::rt::*;
use simops::{Outcome, Refs, Spec, World};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

const TEXT: usize = 1 << 20;
const NHASH: usize = 1 << 22;
pub const MAXREF: usize = 64;
#[repr(C)]
pub struct Ctl { pub next: AtomicU64, pub stop: AtomicU32, pad: u32, pub nhash: AtomicU64 }
#[repr(C)]
pub struct RefBuf { pub n: u64, pub steps: u64, pub desc: u64, pub flag: [u32; MAXREF], pub d: [u64; MAXREF] }
#[derive(Clone)]
pub struct Shared { ctl: *mut Ctl, hashes: *mut (u64, u64), res: Vec<*mut SimRes>, text: Vec<*mut u8>, refs: Vec<*mut RefBuf>, pub cov: Vec<*mut u8>, pub ncov: usize }
fn map(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED, "mmap");
        p as *mut u8
    }
}
impl Shared {
    pub fn new(nw: usize) -> Shared {
        let ncov = unsafe { sim_num_guards() } as usize + 8;
        assert_eq!(unsafe { sim_res_size() } as usize, std::mem::size_of::<SimRes>());
        let m = |n: usize| (0..nw).map(|_| map(n)).collect::<Vec<_>>();
        Shared { ctl: map(4096) as _, hashes: map(NHASH * 16) as _, res: m(std::mem::size_of::<SimRes>()).into_iter().map(|p| p as _).collect(), text: m(TEXT), refs: m(std::mem::size_of::<RefBuf>()).into_iter().map(|p| p as _).collect(), cov: m(ncov), ncov }
    }
    pub fn ctl(&self) -> &Ctl { unsafe { &*self.ctl } }
    pub fn push_hash(&self, h: u64, w: &[u8]) {
        let i = self.ctl().nhash.fetch_add(1, SeqCst) as usize;
        if i < NHASH { let mut d = simbase::Dig::new(); d.bytes(w); unsafe { *self.hashes.add(i) = (h, d.get()) } }
    }
    /// (distinct interleavings, distinct workloads)
    pub fn distinct(&self) -> (u64, u64, u64) {
        let n = (self.ctl().nhash.load(SeqCst) as usize).min(NHASH);
        let v = unsafe { std::slice::from_raw_parts(self.hashes, n) };
        let mut a: Vec<u64> = v.iter().map(|x| x.0).filter(|x| *x != 0).collect(); a.sort(); a.dedup();
        let mut b: Vec<u64> = v.iter().map(|x| x.1).collect(); b.sort(); b.dedup();
        let mut c: Vec<(u64, u64)> = v.to_vec(); c.sort(); c.dedup();
        (a.len() as u64, b.len() as u64, c.len() as u64)
    }
    pub fn coverage(&self) -> u64 { (0..self.ncov).filter(|&i| self.cov.iter().any(|c| unsafe { *c.add(i) } != 0)).count() as u64 }
    pub fn put_text(&self, w: usize, s: &str) { let n = s.len().min(TEXT - 8); unsafe { *(self.text[w] as *mut u64) = n as u64; std::ptr::copy_nonoverlapping(s.as_ptr(), self.text[w].add(8), n); } }
    pub fn get_text(&self, w: usize) -> String { unsafe { let n = (*(self.text[w] as *const u64) as usize).min(TEXT - 8); String::from_utf8_lossy(std::slice::from_raw_parts(self.text[w].add(8), n)).into_owned() } }
}
pub fn setup() { assert_eq!(unsafe { sim_map() }, 0, "cannot map the simulated heap"); }
pub fn pin(w: usize) { unsafe { let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize; let mut m: libc::cpu_set_t = std::mem::zeroed(); libc::CPU_SET(w % n, &mut m); libc::sched_setaffinity(0, std::mem::size_of_val(&m), &m); } }
/// Same addresses in every execution.
pub fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_NOASLR").is_none() && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("SIM_NOASLR", "1").exec();
            eprintln!("exec: {e}");
        }
    }
}

#[derive(Clone, Debug)]
pub enum End { Ok, Skipped(String), Violation(String, String), Harness(String) }
#[derive(Clone, Debug)]
pub struct Run {
    pub end: End, pub sample: String, pub items: usize, pub checks: u64, pub digest: u64, pub probes: Vec<(String, u64)>, pub refs: Refs,
    pub steps: u64, pub time: u64, pub threads: u32, pub switches: u64, pub preempts: u64, pub sched_hash: u64, pub faults: Vec<(String, u64)>,
    pub rec_overflow: bool, pub heap_allocs: u64, pub mem_reused: u64,
}
struct Twin { c: std::process::Child, out: std::io::BufReader<std::process::ChildStdout> }
pub struct Exec { sh: Shared, w: usize, twin_bin: Option<String>, twin: Option<Twin>, pub last_desc_hash: u64, pub rec: Vec<Ent> }
fn hash_str(s: &str) -> u64 { let mut d = simbase::Dig::new(); d.bytes(s.as_bytes()); d.get() }

impl Exec {
    pub fn new(twin: Option<String>) -> Exec { Exec::with(Shared::new(1), 0, twin) }
    pub fn with(sh: Shared, w: usize, twin: Option<String>) -> Exec { Exec { sh, w, twin_bin: twin, twin: None, last_desc_hash: 0, rec: vec![] } }
    fn clear(&self) { unsafe { std::ptr::write_bytes(self.sh.res[self.w] as *mut u8, 0, std::mem::offset_of!(SimRes, rec)) } self.sh.put_text(self.w, ""); }

    pub fn text(&self) -> String { self.sh.get_text(self.w) }
    /// Results of the scenario's reference calls, each alone in a fresh process under the neutral world.
    pub fn refs(&mut self, s: &Spec) -> Refs {
        self.clear();
        let rb = self.sh.refs[self.w];
        unsafe { std::ptr::write_bytes(rb as *mut u8, 0, std::mem::size_of::<RefBuf>()) }
        let pid = unsafe { libc::fork() };
        if pid == 0 { ref_child(s, self.sh.res[self.w], rb, self.sh.text[self.w]) }
        let st = wait(pid);
        let b = unsafe { &*rb };
        self.last_desc_hash = b.desc;
        if st != 0 { return Refs { d: vec![], steps: u64::MAX } }
        Refs { d: (0..b.n as usize).map(|i| if b.flag[i] == 1 { Some(b.d[i]) } else { None }).collect(), steps: b.steps }
    }
    fn twin_refs(&mut self, s: &Spec) -> Result<Refs, String> {
        use std::io::{BufRead, Write};
        if self.twin.is_none() {
            let b = self.twin_bin.clone().ok_or("no twin binary given")?;
            let mut c = std::process::Command::new(b).arg("ref-server").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().map_err(|e| e.to_string())?;
            let out = std::io::BufReader::new(c.stdout.take().unwrap());
            self.twin = Some(Twin { c, out });
        }
        let t = self.twin.as_mut().unwrap();
        writeln!(t.c.stdin.as_mut().unwrap(), "{} {} {}", s.prop, s.seed, s.cap).map_err(|e| e.to_string())?;
        let mut l = String::new();
        t.out.read_line(&mut l).map_err(|e| e.to_string())?;
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 2 { return Err("twin gave no answer".into()) }
        self.last_desc_hash = f[1].parse().unwrap();
        Ok(Refs { steps: f[0].parse().unwrap(), d: f[2..].iter().map(|x| x.parse().ok()).collect() })
    }
    /// Like `run`; a run that used up its budget mostly by yielding has to do so again when yielding is cheap.
    pub fn judge(&mut self, s: &Spec) -> Run {
        let r = self.run(s);
        if !matches!(&r.end, End::Violation(c, _) if c == "no progress") { return r }
        let mut p = s.clone();
        p.world.patient = 1;
        let q = self.run(&p);
        if matches!(&q.end, End::Violation(..)) { self.run(s) } else { q }
    }
    pub fn run(&mut self, s: &Spec) -> Run {
        let mut out = Run { end: End::Ok, sample: String::new(), items: 0, checks: 0, digest: 0, probes: vec![], refs: Refs::default(), steps: 0, time: 0, threads: 0, switches: 0, preempts: 0, sched_hash: 0, faults: vec![], rec_overflow: false, heap_allocs: 0, mem_reused: 0 };
        let refs = if s.prop == "C02" { match self.twin_refs(s) { Ok(r) => r, Err(e) => { out.end = End::Harness(format!("twin: {e}")); return out } } }
            else if simops::scen::needs_refs(&s.prop) { self.refs(s) } else { Refs::default() };
        if refs.steps == u64::MAX { out.end = End::Harness("reference process failed".into()); return out }
        let want_desc = self.last_desc_hash;
        out.refs = refs.clone();
        if refs.d.iter().any(|x| x.is_none()) && simops::scen::refs_must_end(&s.prop) { out.end = End::Skipped("a reference call crashed or did not end".into()); return out }
        self.clear();
        let pid = if std::env::var_os("SIM_NOFORK").is_some() { 0 } else { unsafe { libc::fork() } };
        if pid == 0 { main_child(s, &refs, &self.sh, self.w) }
        let st = wait(pid);
        let rp: *mut SimRes = self.sh.res[self.w];
        let r: &SimRes = unsafe { &*rp };
        let text = self.sh.get_text(self.w);
        let (desc, body) = text.split_once('\u{1}').unwrap_or((&text, ""));
        out.sample = desc.to_string();
        if s.prop == "C02" && !desc.is_empty() && hash_str(desc) != want_desc { out.end = End::Harness("twin built a different workload".into()); return out }
        out.steps = r.steps; out.time = r.time; out.threads = r.nthreads; out.switches = r.switches; out.preempts = r.preempts; out.sched_hash = r.sched_hash;
        out.rec_overflow = r.rec_overflow != 0; out.heap_allocs = r.heap_allocs; out.mem_reused = r.heap_reused;
        let io = &r.f_io;
        out.faults = [("preemptions", r.preempts), ("thread stalls", r.f_stall), ("spurious futex wake-ups", r.f_spur), ("reordered wake-ups", r.f_wakepick), ("clock jumps", r.f_jump), ("entropy reads", r.f_entropy_calls), ("entropy EINTR", r.f_entropy_eintr), ("entropy short reads", r.f_entropy_short), ("environment reads", r.f_env), ("heap block re-use", r.heap_reused),
            ("open errors", io[1]), ("read EINTR", io[2]), ("short reads", io[3]), ("device errors at offset", io[4]), ("truncations", io[5]), ("read errors", io[6]), ("seek errors", io[7])].iter().filter(|x| x.1 > 0).map(|x| (x.0.to_string(), x.1)).collect();
        if std::env::var_os("SIM_YIELDS").is_some() && r.f_yield > 2000 { eprintln!("yields {} switches {} steps {}", r.f_yield, r.switches, r.steps) }
        self.rec = r.rec[..(r.nrec as usize).min(MAXREC)].to_vec();
        let msg = || { let m = &r.msg; String::from_utf8_lossy(&m[..m.iter().position(|x| *x == 0).unwrap_or(m.len())]).into_owned() };
        let exited = st & 0x7f == 0;
        let code = (st >> 8) & 0xff;
        if exited && code == 0 && r.verdict == 1 {
            let Ok(v) = serde_json::from_str::<Value>(body) else { out.end = End::Harness("unreadable outcome".into()); return out };
            out.checks = v["checks"].as_u64().unwrap_or(0); out.digest = v["digest"].as_u64().unwrap_or(0); out.items = v["items"].as_u64().unwrap_or(0) as usize;
            out.probes = v["probes"].as_array().map(|a| a.iter().map(|x| (x[0].as_str().unwrap_or("").to_string(), x[1].as_u64().unwrap_or(0))).collect()).unwrap_or_default();
            for (n, c) in &out.probes { if n == "windowing failures" || n.starts_with("injected ") { out.faults.push((n.clone(), *c)) } }
            if let Some(f) = v["viol"].as_array() { out.end = End::Violation(f[0].as_str().unwrap_or("").into(), f[1].as_str().unwrap_or("").into()) }
            return out
        }
        out.end = if !exited {
            let sig = st & 0x7f;
            if sig == libc::SIGALRM || sig == libc::SIGKILL { End::Harness(format!("killed by signal {sig} after {} steps: {desc}", r.steps)) }
            else { End::Violation("crash".into(), format!("the process died of signal {sig}; workload: {desc}")) }
        } else { match code - 40 {
            2 => End::Violation("deadlock".into(), format!("no thread can run, {} of {} blocked; workload: {desc}", r.blocked, r.nthreads)),
            // C11 judges memory only; whether unusual arguments end is C10's question
            3 if s.prop == "C11" => End::Skipped("a call did not end".into()),
            3 => End::Violation("no progress".into(), format!("still running after {} steps; workload: {desc}", r.steps)),
            8 if s.prop == "C10" => End::Violation("absurd allocation".into(), format!("{}; workload: {desc}", msg())),
            7 | 8 => End::Skipped(format!("more memory wanted than there is: {}", msg())),
            4 | 6 => End::Violation("memory".into(), format!("{}; workload: {desc}", msg())),
            k => if code == 101 || code == 0 { End::Harness(format!("harness panicked or left early: {body} {desc}")) } else { End::Harness(format!("verdict {k} {}: {desc}", msg())) },
        } };
        out
    }
}
impl Drop for Exec { fn drop(&mut self) { if let Some(t) = &mut self.twin { let _ = t.c.kill(); let _ = t.c.wait(); } } }
fn wait(pid: i32) -> i32 { let mut st = 0; unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} } st }
fn quiet() { unsafe { if std::env::var_os("SIM_DEBUG").is_none() { let f = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY); libc::dup2(f, 2); libc::close(f); } libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &l); } }
const REF_CAP: u64 = 400_000_000;
fn put(t: *mut u8, s: &str) { let n = s.len().min(TEXT - 8); unsafe { *(t as *mut u64) = n as u64; std::ptr::copy_nonoverlapping(s.as_ptr(), t.add(8), n); } }
fn ref_child(s: &Spec, res: *mut SimRes, rb: *mut RefBuf, text: *mut u8) -> ! {
    unsafe {
        quiet();
        libc::alarm(120);
        sim_set_res(res, std::ptr::null_mut());
        let cfg = World::neutral().cfg(REF_CAP, &[], &[], false);
        sim_begin(&cfg);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| simops::scen::plan(s)));
        let Ok(p) = r else { libc::_exit(9) };
        let b = &mut *rb;
        b.desc = hash_str(&p.desc);
        put(text, &p.desc);
        b.n = p.refs.len().min(MAXREF) as u64;
        let base = steps();
        for (i, c) in p.refs.iter().enumerate().take(MAXREF) {
            // a repeated call has one reference
            if let Some(j) = (0..i).find(|&j| std::sync::Arc::ptr_eq(&p.refs[j].run, &c.run)) { b.flag[i] = b.flag[j]; b.d[i] = b.d[j]; continue }
            let pid = libc::fork();
            if pid == 0 {
                libc::alarm(60);
                let d = c.exec();
                b.d[i] = d; b.flag[i] = 1; b.steps += steps() - base;
                libc::_exit(0);
            }
            wait(pid);
        }
        libc::_exit(0)
    }
}
/// Scratch directory of worker `w` of this driver; always the same length, removed by the driver.
static DRIVER: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub fn claim_scratch() { DRIVER.store(std::process::id(), SeqCst) }
pub fn scratch_root() -> String { format!("/tmp/simio.{:010}", DRIVER.load(SeqCst)) }
fn scratch(w: usize) -> String { format!("{}/{w:03}", scratch_root()) }
pub fn remove_scratch() { let r = scratch_root(); if DRIVER.load(SeqCst) != 0 && r.starts_with("/tmp/simio.") { let _ = std::fs::remove_dir_all(&r); } }
fn main_child(s: &Spec, refs: &Refs, sh: &Shared, w: usize) -> ! {
    unsafe {
        quiet();
        libc::alarm(100);
        sim_set_res(sh.res[w], sh.cov[w]);
        let mut world = s.world.clone();
        if world.pct_len == 0 { world.pct_len = if refs.steps > 0 { refs.steps.saturating_mul(2) } else { 1000 << (world.sched_seed % 10) } }
        // keep the number of context switches of a run affordable (a pure function of the spec)
        let est = if refs.steps > 0 { refs.steps } else { s.cap * 500 };
        world.mean_q = world.mean_q.max(est * if world.mode == 3 { 9 } else { 3 } / 50_000);
        let none: &[Ent] = &[];
        let cfg = world.cfg(if s.prop == "C10" || s.prop == "C15" { 1_500_000_000 } else if s.prop == "C04" { 600_000_000 + refs.steps.saturating_mul(100) } else if s.prop == "C12" { 100_000_000 } else if s.prop == "C13" { 1_500_000_000 } else { 200_000_000 + refs.steps.saturating_mul(100) }, s.sched.as_deref().unwrap_or(none), &s.occ, s.sched.is_some());
        #[cfg(feature = "par")]
        { *simops::scen::io::ROOT.lock().unwrap() = scratch(w); if s.prop == "C12" { let _ = std::fs::create_dir_all(scratch(w)); } }
        sim_begin(&cfg);
        let p = simops::scen::plan(s);
        let (desc, items) = (p.desc.clone(), p.items);
        let mut head: String = desc.chars().take(6000).collect();
        head.retain(|c| c != '\u{1}');
        sh.put_text(w, &head);
        if let Some((root, f)) = &p.io { let c = std::ffi::CString::new(root.as_str()).unwrap(); sim_io(c.as_ptr() as _, f.as_ptr(), f.len() as u32) }
        let go = p.go;
        let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(refs)));
        sim_end();
        let o: Outcome = match o {
            Ok(o) => o,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                sh.put_text(w, &format!("{head}\u{1}{m}"));
                libc::_exit(101)
            }
        };
        let j = json!({"checks": o.checks, "digest": o.digest, "items": items, "probes": o.probes.iter().map(|p| json!([p.0, p.1])).collect::<Vec<_>>(), "viol": o.viol.map(|v| json!([v.0, v.1]))});
        sh.put_text(w, &format!("{head}\u{1}{j}"));
        let rp: *mut SimRes = sh.res[w];
        (*rp).verdict = 1;
        libc::_exit(0)
    }
}

// ------------------------------------------------------------------ JSON
pub fn ents(e: &[Ent]) -> Value { Value::Array(e.iter().map(|e| json!([e.at, e.kind, e.arg])).collect()) }
fn ents_from(v: &Value) -> Vec<Ent> { v.as_array().map(|a| a.iter().map(|e| Ent { at: e[0].as_u64().unwrap(), kind: e[1].as_u64().unwrap() as u32, arg: e[2].as_u64().unwrap() as u32 }).collect()).unwrap_or_default() }
macro_rules! world_fields { ($m:ident) => { $m!(sched_seed, mode, mean_q, pct_depth, pct_len, stall, spur, stall_max, ent_seed, ent_mode, ent_fault, clock_base, jump, jump_max, ncpu, heap_off, heap_down, heap_reuse, garbage_seed, garbage_mode, pool, env_seed, check, patient) } }
pub fn world_json(w: &World) -> Value { macro_rules! f { ($($x:ident),*) => { json!({$(stringify!($x): w.$x),*}) } } world_fields!(f) }
pub fn world_from(v: &Value) -> World { let mut w = World::neutral(); macro_rules! f { ($($x:ident),*) => { $(w.$x = v[stringify!($x)].as_u64().unwrap_or(0) as _;)* } } world_fields!(f); w }
pub fn spec_json(s: &Spec) -> Value { json!({"property": s.prop, "seed": s.seed, "cap": s.cap, "drop": s.drop, "world": world_json(&s.world), "sched": s.sched.as_ref().map(|x| ents(x)), "occ": ents(&s.occ)}) }
pub fn spec_from(v: &Value) -> Spec { Spec { prop: v["property"].as_str().unwrap().into(), seed: v["seed"].as_u64().unwrap(), cap: v["cap"].as_u64().unwrap(), drop: v["drop"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(), world: world_from(&v["world"]), sched: if v["sched"].is_null() { None } else { Some(ents_from(&v["sched"])) }, occ: ents_from(&v["occ"]) } }
#[allow(dead_code)] pub type _A = Arc<()>;
