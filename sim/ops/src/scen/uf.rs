//! C15: union-find histories, also from several threads behind a lock.
use super::*;
use imageproc::union_find::DisjointSetForest;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q { Root(usize), Find(usize, usize), Union(usize, usize), Num, Trees, Clone_, Chain(usize, usize) }
#[derive(Clone, Debug, PartialEq)]
enum A { Idx(usize), Bool(bool), Unit, Num(usize), Trees(Vec<Vec<usize>>), Panic }
fn ask(f: &mut DisjointSetForest, q: Q) -> A {
    catch_unwind(AssertUnwindSafe(|| match q {
        Q::Root(i) => A::Idx(f.root(i)), Q::Find(i, j) => A::Bool(f.find(i, j)), Q::Union(i, j) => { f.union(i, j); A::Unit }
        Q::Num => A::Num(f.num_trees()), Q::Trees => A::Trees(f.trees()), Q::Clone_ => A::Unit, Q::Chain(i, j) => { for k in i..j { f.union(k, k + 1) } A::Unit }
    })).unwrap_or(A::Panic)
}
/// The reference: a label per element.
struct Model { l: Vec<usize>, m: Vec<Vec<usize>>, n: usize }
impl Model {
    fn union(&mut self, i: usize, j: usize) { let (a, b) = (self.l[i], self.l[j]); if a != b { let v = std::mem::take(&mut self.m[b]); for &x in &v { self.l[x] = a } self.m[a].extend(v); self.n -= 1 } }
    fn check(&mut self, q: Q, a: &A) -> Result<(), String> {
        let c = self.l.len();
        let bad = |m: &str| Err(format!("{q:?} answered {a:?}: {m}"));
        let oob = match q { Q::Root(i) => i >= c, Q::Find(i, j) | Q::Union(i, j) => i >= c || j >= c, _ => false };
        if oob { return if *a == A::Panic { Ok(()) } else { bad("out of range but not rejected") } }
        match (q, a) {
            (Q::Root(i), A::Idx(r)) => if *r >= c || self.l[*r] != self.l[i] { return bad("not an element of the same set") },
            (Q::Find(i, j), A::Bool(b)) => if *b != (self.l[i] == self.l[j]) { return bad("wrong") },
            (Q::Union(i, j), A::Unit) => self.union(i, j),
            (Q::Num, A::Num(n)) => if *n != self.n { return bad(&format!("there are {}", self.n)) },
            (Q::Trees, A::Trees(t)) => {
                let mut seen = vec![false; c]; let mut lab = std::collections::BTreeSet::new();
                if t.len() != self.n { return bad("wrong number of trees") }
                for s in t {
                    if s.is_empty() { return bad("empty tree") }
                    if !lab.insert(self.l[s[0]]) { return bad("one set in two trees") }
                    for &e in s { if e >= c || seen[e] || self.l[e] != self.l[s[0]] { return bad("elements not listed once in their tree") } seen[e] = true }
                }
                if seen.iter().any(|x| !x) { return bad("an element is missing") }
            }
            (Q::Clone_, A::Unit) => {}
            (Q::Chain(i, j), A::Unit) => for k in i..j { self.union(k, k + 1) },
            _ => return bad("unexpected"),
        }
        Ok(())
    }
}
fn gen_q(r: &mut Rng, c: usize, style: u64, k: usize) -> Q {
    let x = c.max(1) as u64;
    let mut e = |r: &mut Rng| { let v = match style { 1 => (k as u64 + r.below(2)) % x, 2 => if r.chance(1, 2) { 0 } else { r.below(x) }, 3 => r.below(x.min(6)), _ => r.below(x) }; if c == 0 || r.chance(1, 40) { r.pick(&[c, c + 1, usize::MAX, c + 1000]) } else { v as usize } };
    match r.below(20) { 0..=9 => Q::Union(e(r), e(r)), 10..=12 => Q::Find(e(r), e(r)), 13..=15 => Q::Root(e(r)), 16..=17 => Q::Num, 18 => Q::Trees, _ => Q::Clone_ }
}
pub fn c15(s: &Spec) -> Plan {
    let mut r = s.rng(2);
    let c = r.pick(&[0, 1, 2, 3, 5, 8, 8, 13, 30, 100, 700]).min(s.cap as usize);
    let nt = r.pick(&[1, 1, 2, 3, 4]);
    let style = r.below(4);
    let (c, total) = if s.cap > 2_000 && r.chance(1, 80) { (r.pick(&[300, 300, 300, 3_000, 3_000, 66_500]), r.pick(&[100, 400])) } else { (c, r.pick(&[5, 20, 60, 200])) };
    let qs: Vec<(usize, Q)> = (0..total).map(|k| (r.usize(0, nt - 1), gen_q(&mut r, c, style, k))).collect();
    let qs: Vec<(usize, Q)> = if c < 300 || c == 700 { qs } else { qs.into_iter().enumerate().map(|(k, (t, q))| (t, match q { Q::Trees if c > 3_000 && k > 40 => Q::Num, Q::Union(i, j) if i < c && r.chance(1, 15) => { let n = r.pick(&[3usize, 40, 255, 256, 300, c]); let (a, b) = (if r.chance(1, 3) { 0 } else { i }, n); let _ = j; Q::Chain(a, (a + b).min(c - 1)) } q => q })).collect() };
    let qs: Vec<(usize, Q)> = qs.into_iter().enumerate().filter(|(i, _)| s.kept(*i)).map(|x| x.1).collect();
    let desc = format!("{c} elements, {nt} threads: {}", qs.iter().map(|(t, q)| format!("{t}:{q:?}")).collect::<Vec<_>>().join(" "));
    Plan { refs: vec![], items: total, desc, io: None, go: Box::new(move |_| {
        let mut o = Outcome::default();
        let f = Arc::new(Mutex::new((DisjointSetForest::new(c), Vec::<(Q, A)>::new())));
        let fs: Vec<Box<dyn FnOnce() + Send>> = (0..nt).map(|t| {
            let mine: Vec<Q> = qs.iter().filter(|x| x.0 == t).map(|x| x.1).collect(); let f = f.clone();
            Box::new(move || for q in mine { let mut g = f.lock().unwrap(); let a = ask(&mut g.0, q); g.1.push((q, a)) }) as Box<dyn FnOnce() + Send>
        }).collect();
        if nt == 1 { for f in fs { f() } } else { for x in on_threads(fs) { x.unwrap() } }
        let (mut forest, mut hist) = std::mem::replace(&mut *f.lock().unwrap(), (DisjointSetForest::new(0), vec![]));
        // final state, asked completely
        for q in [Q::Trees, Q::Num, Q::Trees].into_iter().chain((0..c).map(Q::Root)).chain([Q::Trees]) { let a = ask(&mut forest, q); hist.push((q, a)) }
        let mut m = Model { l: (0..c).collect(), m: (0..c).map(|i| vec![i]).collect(), n: c };
        let mut d = Dig::new();
        for (k, (q, a)) in hist.iter().enumerate() {
            o.checks += 1;
            if *a == A::Panic { o.probe("rejected operations", 1) }
            o.probe(match q { Q::Root(_) => "root", Q::Find(..) => "find", Q::Union(..) => "union", Q::Num => "num_trees", Q::Trees => "trees", Q::Clone_ => "none", Q::Chain(..) => "chains of unions" }, 1);
            d.add(&format!("{a:?}"));
            if let Err(e) = m.check(*q, a) { o.fail("union-find answer differs from the partition", format!("operation {k} of the history: {e}; history {:?}", hist[..=k].iter().map(|x| x.0).collect::<Vec<_>>())) }
        }
        // one root per set, and it is its own root
        let roots: Vec<usize> = hist.iter().rev().skip(1).take(c).rev().filter_map(|x| if let A::Idx(r) = x.1 { Some(r) } else { None }).collect();
        if roots.len() == c { for i in 0..c { if roots[roots[i].min(c - 1)] != roots[i] { o.fail("root of a root", format!("element {i}")) } for j in i.saturating_sub(40)..i { if (roots[i] == roots[j]) != (m.l[i] == m.l[j]) { o.fail("same root does not mean connected", format!("elements {j} and {i}")) } } } }
        // the same history in another thread (other hash seeds) lists the trees in the same order
        let h2: Vec<(Q, A)> = hist.iter().filter(|x| x.1 != A::Panic).cloned().collect();
        let again = std::thread::spawn(move || { let _m: std::collections::HashMap<u8, u8> = [(1, 2)].into(); let mut f = DisjointSetForest::new(c); h2.into_iter().map(|(q, a)| (q, a == ask(&mut f, q))).find(|x| !x.1) }).join().unwrap();
        if let Some((q, _)) = again { o.fail("same history, different answer", format!("{q:?} answered differently when the history was repeated")) }
        o.digest = d.get();
        o
    }) }
}
