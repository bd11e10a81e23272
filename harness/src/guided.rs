//! Coverage-guided workload: mutate documents, keep those that make the library
//! do something new (an edge taken a new number of times, or the two sides of a
//! comparison coming closer), judge every one with the property's monitor.

use crate::cases;
use crate::checks::{self, Case, Stats};
use crate::faults;
use crate::gen::{self, Cfg, Dict, Doc};
use crate::model;
use crate::obs::guarded;
use crate::rng::{fnv, Rng};
use crate::run::{self, num, opt};
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

// ------------------------------------------------------------- instrumentation

const SITES: usize = 1 << 12;
static mut REGIONS: [(usize, usize); 64] = [(0, 0); 64];
static mut NREGIONS: usize = 0;
/// One bit per (comparison site, log2 of the distance of its sides).
static mut CMP: [[u64; 2]; SITES] = [[0; 2]; SITES];

/// Comparisons the library has made (instrumented builds only): work done.
pub static mut WORK: u64 = 0;
pub fn comparisons() -> u64 {
    unsafe { WORK }
}

#[cfg(guided)]
mod hooks {
    use super::*;

    #[no_mangle]
    extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
        unsafe {
            let n = NREGIONS;
            if n < 64 && (n == 0 || !(0..n).any(|i| REGIONS[i].0 == start as usize)) {
                REGIONS[n] = (start as usize, stop as usize);
                NREGIONS = n + 1;
            }
        }
    }
    #[no_mangle]
    extern "C" fn __sanitizer_cov_pcs_init(_: *const u8, _: *const u8) {}

    #[inline(always)]
    unsafe fn note(pc: u64, a: u64, b: u64) {
        let site = ((pc ^ (pc >> 13)).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52) as usize & (SITES - 1);
        let d = 64 - a.abs_diff(b).leading_zeros() as usize;
        CMP[site][d >> 6] |= 1 << (d & 63);
        WORK += 1;
    }
    #[no_mangle]
    unsafe extern "C" fn mon_cmp1(a: u64, b: u64, pc: u64) {
        note(pc, a as u8 as u64, b as u8 as u64)
    }
    #[no_mangle]
    unsafe extern "C" fn mon_cmp2(a: u64, b: u64, pc: u64) {
        note(pc, a as u16 as u64, b as u16 as u64)
    }
    #[no_mangle]
    unsafe extern "C" fn mon_cmp4(a: u64, b: u64, pc: u64) {
        note(pc, a as u32 as u64, b as u32 as u64)
    }
    #[no_mangle]
    unsafe extern "C" fn mon_cmp8(a: u64, b: u64, pc: u64) {
        note(pc, a, b)
    }
    /// `cases`: count, bit width, then the constants.
    #[no_mangle]
    unsafe extern "C" fn mon_switch(v: u64, cases: *const u64, pc: u64) {
        for i in 0..*cases {
            note(pc.wrapping_add(i + 1), v, *cases.add(2 + i as usize));
        }
    }
    // The return address tells the comparison sites apart.
    std::arch::global_asm!(
        ".globl __sanitizer_cov_trace_cmp1", "__sanitizer_cov_trace_cmp1: mov rdx, [rsp]", "jmp mon_cmp1",
        ".globl __sanitizer_cov_trace_cmp2", "__sanitizer_cov_trace_cmp2: mov rdx, [rsp]", "jmp mon_cmp2",
        ".globl __sanitizer_cov_trace_cmp4", "__sanitizer_cov_trace_cmp4: mov rdx, [rsp]", "jmp mon_cmp4",
        ".globl __sanitizer_cov_trace_cmp8", "__sanitizer_cov_trace_cmp8: mov rdx, [rsp]", "jmp mon_cmp8",
        ".globl __sanitizer_cov_trace_const_cmp1", "__sanitizer_cov_trace_const_cmp1: mov rdx, [rsp]", "jmp mon_cmp1",
        ".globl __sanitizer_cov_trace_const_cmp2", "__sanitizer_cov_trace_const_cmp2: mov rdx, [rsp]", "jmp mon_cmp2",
        ".globl __sanitizer_cov_trace_const_cmp4", "__sanitizer_cov_trace_const_cmp4: mov rdx, [rsp]", "jmp mon_cmp4",
        ".globl __sanitizer_cov_trace_const_cmp8", "__sanitizer_cov_trace_const_cmp8: mov rdx, [rsp]", "jmp mon_cmp8",
        ".globl __sanitizer_cov_trace_switch", "__sanitizer_cov_trace_switch: mov rdx, [rsp]", "jmp mon_switch",
    );
}

fn clear() {
    unsafe {
        for i in 0..NREGIONS {
            let (a, b) = REGIONS[i];
            std::ptr::write_bytes(a as *mut u8, 0, b - a);
        }
        CMP = [[0; 2]; SITES];
    }
}

struct Seen {
    /// Per counter: the buckets seen, the executions that took it, and the
    /// shortest kept document that takes it.
    edges: Vec<u8>,
    hits: Vec<u32>,
    best: Vec<u32>,
    cmps: Vec<[u64; 2]>,
    chits: Vec<u32>,
    /// Per comparison site: the smallest distance above 0 and the document that had it.
    near: Vec<(u8, u32)>,
}

const NONE: u32 = u32::MAX;

impl Seen {
    fn new() -> Seen {
        let n = unsafe { (0..NREGIONS).map(|i| REGIONS[i].1 - REGIONS[i].0).sum() };
        Seen {
            edges: vec![0; n],
            hits: vec![0; n],
            best: vec![NONE; n],
            cmps: vec![[0; 2]; SITES],
            chits: vec![0; SITES],
            near: vec![(255, NONE); SITES],
        }
    }
    /// Number of new features since the last clear.
    fn absorb(&mut self) -> (usize, usize) {
        let (mut ne, mut nc, mut k) = (0, 0, 0);
        unsafe {
            for i in 0..NREGIONS {
                let (a, b) = REGIONS[i];
                for p in a..b {
                    let c = *(p as *const u8);
                    if c != 0 {
                        let bucket = match c {
                            1 => 1u8,
                            2 => 2,
                            3 => 4,
                            4..=7 => 8,
                            8..=15 => 16,
                            16..=31 => 32,
                            32..=127 => 64,
                            _ => 128,
                        };
                        self.hits[k] = self.hits[k].saturating_add(1);
                        if self.edges[k] & bucket == 0 {
                            self.edges[k] |= bucket;
                            ne += 1;
                        }
                    }
                    k += 1;
                }
            }
            for s in 0..SITES {
                let c = CMP[s];
                if c == [0, 0] {
                    continue;
                }
                self.chits[s] = self.chits[s].saturating_add(1);
                for j in 0..2 {
                    let new = c[j] & !self.cmps[s][j];
                    if new != 0 {
                        self.cmps[s][j] |= new;
                        nc += new.count_ones() as usize;
                    }
                }
            }
        }
        (ne, nc)
    }
    /// The document just judged is kept as `id`.
    fn keep(&mut self, id: u32, corpus: &[Case]) {
        let len = corpus[id as usize].text.len();
        let mut k = 0;
        unsafe {
            for i in 0..NREGIONS {
                let (a, b) = REGIONS[i];
                for p in a..b {
                    if *(p as *const u8) != 0 && (self.best[k] == NONE || corpus[self.best[k] as usize].text.len() > len) {
                        self.best[k] = id;
                    }
                    k += 1;
                }
            }
            for s in 0..SITES {
                let d = if CMP[s][0] & !1 != 0 { (CMP[s][0] & !1).trailing_zeros() as u8 } else { 255 };
                let n = &mut self.near[s];
                if d < n.0 || (d == n.0 && d != 255 && corpus[n.1 as usize].text.len() > len) {
                    *n = (d, id);
                }
            }
        }
    }
    /// A kept document that goes where few went.
    fn rare(&self, r: &mut Rng) -> Option<usize> {
        let mut pick: Option<(u32, u32)> = None;
        let cmp = r.pct(40);
        // the rarest of a random sample
        for _ in 0..*r.pick(&[8, 60, 400]) {
            let (h, b) = if cmp {
                let k = r.below(SITES);
                (self.chits[k], self.near[k].1)
            } else {
                let k = r.below(self.best.len());
                (self.hits[k], self.best[k])
            };
            if b != NONE && pick.is_none_or(|p| h < p.0) {
                pick = Some((h, b));
            }
        }
        pick.map(|p| p.1 as usize)
    }
    fn covered(&self) -> usize {
        self.edges.iter().filter(|e| **e != 0).count()
    }
}

// ------------------------------------------------------------------- mutation

fn words(text: &str) -> Doc {
    model::lines(text).into_iter().filter(|l| !l.words.is_empty()).map(|l| l.words.into_iter().map(String::from).collect()).collect()
}

/// Turn a document into a well-formed one, changing as little as possible.
fn repair(r: &mut Rng, d: &Dict, doc: &mut Doc) {
    let (mut n, mut base) = ([0usize; 3], [0usize; 3]);
    let mut libs: Doc = vec![];
    let mut out: Doc = vec![];
    let name = |w: Option<String>, r: &mut Rng| w.unwrap_or_else(|| gen::name(r, d));
    for mut l in doc.drain(..) {
        let ops: Vec<String> = l.drain(1..).collect();
        let kw = l[0].clone();
        let k = ["v", "vt", "vn"].iter().position(|x| *x == kw);
        if let Some(k) = k {
            let (lo, hi) = [(3, 4), (1, 3), (3, 3)][k];
            let mut nums: Vec<String> = ops.into_iter().filter(|w| w.parse::<f64>().is_ok()).collect();
            nums.truncate(hi);
            while nums.len() < lo {
                nums.push(gen::number(r, d));
            }
            n[k] += 1;
            l.extend(nums);
            out.push(l);
            continue;
        }
        match kw.as_str() {
            "mtllib" => {
                l.extend(ops);
                libs.push(l);
                continue;
            }
            "o" => {
                l.push(name(ops.into_iter().next(), r));
                base = n;
            }
            "usemtl" => l.push(name(ops.into_iter().next(), r)),
            "g" => l.extend(ops),
            "s" => {
                let w = ops.into_iter().next().unwrap_or_else(|| "off".into());
                let fine = w == "off" || (w.bytes().all(|b| b.is_ascii_digit()) && w.parse::<usize>().is_ok());
                l.push(if fine { w } else { r.below(5).to_string() });
            }
            "p" | "l" | "f" => {
                if n[0] == base[0] {
                    continue;
                }
                let has = |k: usize| n[k] > base[k];
                let first: Vec<&str> = ops.first().map(|w| w.split('/').collect()).unwrap_or_default();
                let t = has(1) && first.get(1).is_some_and(|p| !p.is_empty());
                let m = has(2) && first.get(2).is_some_and(|p| !p.is_empty());
                let part = |r: &mut Rng, k: usize, w: Option<&str>| -> String {
                    if let Some(w) = w {
                        if let Ok(i) = w.parse::<i64>() {
                            let at = if i > 0 { i - 1 } else { n[k] as i64 + i };
                            if i != 0 && at >= base[k] as i64 && at < n[k] as i64 {
                                return w.to_string();
                            }
                        }
                    }
                    let g = r.range(base[k], n[k] - 1);
                    if r.pct(50) { (g + 1).to_string() } else { format!("-{}", n[k] - g) }
                };
                let least = match kw.as_str() {
                    "p" => 1,
                    "l" => 2,
                    _ => 3,
                };
                let mut fixed = vec![];
                for i in 0..ops.len().max(least) {
                    let ps: Vec<&str> = ops.get(i).map(|w| w.split('/').collect()).unwrap_or_default();
                    let mut s = part(r, 0, ps.first().copied());
                    if t || m {
                        s.push('/');
                        if t {
                            s += &part(r, 1, ps.get(1).copied());
                        }
                        if m {
                            s.push('/');
                            s += &part(r, 2, ps.get(2).copied());
                        }
                    }
                    fixed.push(s);
                }
                l.extend(fixed);
            }
            _ => continue,
        }
        out.push(l);
    }
    libs.extend(out);
    *doc = libs;
}

fn repair_mtl(r: &mut Rng, d: &Dict, doc: &mut Doc) {
    let mut out: Doc = vec![];
    for mut l in doc.drain(..) {
        let ops: Vec<String> = l.drain(1..).collect();
        let nums = |k: usize, r: &mut Rng| -> Vec<String> {
            let mut v: Vec<String> = ops.iter().filter(|w| w.parse::<f64>().is_ok()).take(k).cloned().collect();
            while v.len() < k {
                v.push(gen::number(r, d));
            }
            v
        };
        match l[0].as_str() {
            "newmtl" | "map_Ka" | "map_Kd" | "map_Ks" | "map_Ke" | "map_Ns" | "map_d" | "map_Bump" | "map_bump" | "bump" | "disp" | "decal" => {
                l.push(ops.first().cloned().unwrap_or_else(|| gen::name(r, d)))
            }
            "Ka" | "Kd" | "Ks" | "Ke" => l.extend(nums(3, r)),
            "Ns" | "Ni" | "d" => l.extend(nums(1, r)),
            "illum" => {
                let w = ops.first().cloned().unwrap_or_default();
                l.push(if ["0", "1", "2"].contains(&w.as_str()) { w } else { r.below(3).to_string() })
            }
            _ => continue,
        }
        if out.is_empty() && l[0] != "newmtl" {
            out.push(vec!["newmtl".into(), gen::name(r, d)]);
        }
        out.push(l);
    }
    *doc = out;
}

fn operand(r: &mut Rng, d: &Dict, old: &str, doc: &Doc) -> String {
    match r.below(9) {
        0 => gen::number(r, d),
        1 => gen::name(r, d),
        2 => d.word(r).unwrap_or_else(|| "off".into()),
        3 | 4 => {
            // a step away
            if let Ok(i) = old.parse::<i64>() {
                i.saturating_add(*r.pick(&[1, -1, 2, -2, 10])).to_string()
            } else if let Ok(x) = old.parse::<f64>() {
                format!("{:?}", x * *r.pick(&[2.0, 0.5, -1.0, 10.0]))
            } else {
                let mut s = old.to_string();
                if r.pct(50) || s.is_empty() {
                    let c = *r.pick(&['a', '0', '_', '.', 'é', 'Z', '-', '/']);
                    s.push(c);
                } else {
                    s.pop();
                }
                if s.is_empty() { "x".into() } else { s }
            }
        }
        5 => {
            let mut s = old.to_string();
            s.push_str(old);
            s
        }
        6 => d.size(r, 1 << 20).unwrap_or(7).to_string(),
        _ => {
            // one used elsewhere
            let l = r.pick(doc);
            if l.len() > 1 { r.pick(&l[1..]).clone() } else { "1".into() }
        }
    }
}

fn change(r: &mut Rng, d: &Dict, doc: &mut Doc, other: &Doc, mtl: bool) {
    let fresh = |r: &mut Rng| -> Doc {
        if mtl { gen::mtl_doc(r, d) } else { gen::obj_doc(r, d, Cfg { stmts: (0, 6), objects: (1, 2), ..Cfg::base() }) }
    };
    if doc.is_empty() {
        *doc = fresh(r);
        return;
    }
    let (a, b) = (r.below(doc.len()), r.below(doc.len()));
    match r.below(14) {
        0 | 1 => {
            // a new statement
            let f = fresh(r);
            if !f.is_empty() {
                let k = r.below(f.len());
                let e = (k + r.range(1, 3)).min(f.len());
                let at = r.range(0, doc.len());
                doc.splice(at..at, f[k..e].iter().cloned());
            }
        }
        2 => {
            let e = (a + r.range(1, 3)).min(doc.len());
            doc.drain(a..e);
        }
        3 => {
            let e = (a + r.range(1, 4)).min(doc.len());
            let block: Doc = doc[a..e].to_vec();
            doc.splice(b..b, block);
        }
        4 => doc.swap(a, b),
        5 | 6 => {
            if doc[a].len() > 1 {
                let k = r.range(1, doc[a].len() - 1);
                let old = doc[a][k].clone();
                doc[a][k] = operand(r, d, &old, doc);
            }
        }
        7 => {
            // one more operand, like another of the line
            let l = &mut doc[a];
            let w = if l.len() > 1 { l[r.range(1, l.len() - 1)].clone() } else { "1".into() };
            let at = r.range(1, l.len());
            l.insert(at, w);
        }
        8 => {
            let l = &mut doc[a];
            if l.len() > 1 {
                let k = r.range(1, l.len() - 1);
                l.remove(k);
            }
        }
        9 => {
            // the same operand in two lines
            if doc[a].len() > 1 && doc[b].len() > 1 {
                let w = r.pick(&doc[a][1..]).clone();
                let k = r.range(1, doc[b].len() - 1);
                doc[b][k] = w;
            }
        }
        10 => {
            // part of another document
            if !other.is_empty() {
                let k = r.below(other.len());
                let e = (k + r.range(1, 12)).min(other.len());
                doc.splice(a..a, other[k..e].iter().cloned());
            }
        }
        11 => {
            // many of a line
            let n = gen::size(r, d, 130);
            let l = doc[a].clone();
            doc.splice(a..a, std::iter::repeat(l).take(n));
        }
        12 => {
            // many of an operand
            let n = gen::size(r, d, 130);
            let l = &mut doc[a];
            if l.len() > 1 {
                let k = r.range(1, l.len() - 1);
                let w = l[k].clone();
                l.splice(k..k, std::iter::repeat(w).take(n));
            }
        }
        _ => {
            // another keyword for the same operands
            let kws: &[&str] = if mtl {
                &["newmtl", "Ka", "Kd", "Ks", "Ke", "Ns", "Ni", "d", "illum", "map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_d", "map_Bump", "map_bump", "bump", "disp", "decal"]
            } else {
                &["v", "vt", "vn", "p", "l", "f", "g", "s", "usemtl", "o"]
            };
            doc[a][0] = r.pick(kws).to_string();
        }
    }
}

fn mutant(r: &mut Rng, d: &Dict, prop: &str, from: &Case, other: &Case) -> Case {
    let aux = r.next();
    let mtl = from.mtl;
    if r.pct(12) {
        let t = gen::damage(r, &from.text);
        return Case { mtl, text: t, aux, valid: false };
    }
    let mut doc = words(&from.text);
    let o = if other.mtl == mtl { words(&other.text) } else { vec![] };
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 2, 3, 5, 8]) {
        change(r, d, &mut doc, &o, mtl);
    }
    if r.pct(90) {
        if mtl { repair_mtl(r, d, &mut doc) } else { repair(r, d, &mut doc) }
    }
    let fault = match prop {
        "C06" | "C07" | "C13" | "C14" | "C16" => 65,
        "C01" | "C02" | "C12" | "C18" | "C22" | "C23" => 30,
        _ => 3,
    };
    if r.pct(fault) {
        if mtl {
            faults::bad_mtl(r, d, &mut doc);
        } else {
            match (prop, r.below(4)) {
                ("C06", _) | (_, 0) => faults::bad_index(r, d, &mut doc),
                ("C07", _) | (_, 1) => faults::bad_shape(r, &mut doc),
                _ => faults::bad_statement(r, d, &mut doc),
            }
        }
    }
    let text = if r.pct(50) { gen::plain(&doc) } else { gen::render(r, &doc) };
    Case { mtl, text, aux, valid: false }
}

// ----------------------------------------------------------------------- loop

pub fn main(args: &[String]) -> i32 {
    let prop = args[0].clone();
    let args = args.to_vec();
    // The stack of an ordinary worker.
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || work(&prop, &args)).unwrap().join().unwrap_or(2)
}

fn work(prop: &str, args: &[String]) -> i32 {
    let plan = run::make_plan(prop, args);
    let worker = num(args, "worker", 0);
    let execs = num(args, "execs", 10_000);
    let secs = num(args, "max_secs", 60);
    // What is being judged, should the process die of it.
    let cur = opt(args, "current").unwrap_or("current.case").to_string();
    let slot = std::fs::File::create(&cur).expect("current case");
    let mut r = Rng::new(&[fnv(prop.as_bytes()), plan.seed, 77, worker]);
    std::panic::set_hook(Box::new(|_| {}));
    let until = Instant::now() + Duration::from_secs(secs);
    let mut seen = Seen::new();
    let mut corpus: Vec<Case> = vec![];
    let mut total = Stats::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let (mut n, mut bytes, mut ef, mut cf) = (0u64, 0u64, 0usize, 0usize);
    let seeds = (execs / 20).clamp(50, 3000);
    let mut bad: Option<(Case, String)> = None;
    let mut herr: Option<String> = None;
    while n < execs && Instant::now() < until {
        let i = n;
        n += 1;
        let made = guarded(|| {
            if i < seeds || corpus.is_empty() {
                let mut c = cases::case(prop, &plan, plan.fixed() + (worker * 1_000_000 + i) as usize);
                c.valid = false;
                c
            } else {
                let m = corpus.len();
                let k = match r.below(4) {
                    0 => r.below(m),
                    1 => m - 1 - r.below(m.min(40)),
                    _ => seen.rare(&mut r).unwrap_or(0),
                };
                let o = r.below(m);
                mutant(&mut r, &plan.d, prop, &corpus[k], &corpus[o])
            }
        });
        let Ok(c) = made else { continue };
        if c.text.len() > if i % 16 == 0 { 20_000 } else { 3_000 } {
            continue;
        }
        let _ = slot.write_all_at(&run::saved(prop, &c, &format!("len={}", c.text.len())), 0);
        clear();
        let mut st = Stats::default();
        let res = guarded(|| checks::check(prop, &c, &mut st));
        let (ne, nc) = seen.absorb();
        ef += ne;
        cf += nc;
        bytes += c.text.len() as u64;
        match res {
            Err(p) => {
                herr = Some(format!("monitor panicked: {p}"));
                break;
            }
            Ok(Err(m)) => {
                bad = Some((c, m));
                break;
            }
            Ok(Ok(())) => {}
        }
        if !st.trivial {
            distinct.insert(fnv(c.text.as_bytes()) ^ c.mtl as u64);
        }
        total.merge(&st);
        // Small ones breed better: what only size made new is kept if it is short.
        if ne > 0 || (nc > 0 && c.text.len() < 1500) {
            corpus.push(c);
            seen.keep(corpus.len() as u32 - 1, &corpus);
        }
    }
    let _ = std::fs::remove_file(&cur);
    let mut out = format!(
        "{{\"evaluations\": {n}, \"distinct_nontrivial\": {}, \"bytes_parsed\": {bytes}, \"edges\": {}, \"edges_covered\": {}, \"edge_features\": {ef}, \"comparison_features\": {cf}, \"corpus\": {}, \"events\": {{{}}}",
        distinct.len(),
        seen.edges.len(),
        seen.covered(),
        corpus.len(),
        total.ev.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", ")
    );
    let mut code = 0;
    if let Some((c, m)) = bad {
        let (c2, m2) = run::minimise(prop, &c, m);
        let path = opt(args, "replay").unwrap_or("replay.case");
        run::save(path, prop, &c2, &m2);
        out += &format!(", \"violation\": {{\"message\": {}, \"replay\": {}}}", run::json(&m2), run::json(path));
        code = 1;
    } else if let Some(h) = herr {
        out += &format!(", \"harness_error\": {}", run::json(&h));
        code = 2;
    }
    println!("{out}}}");
    code
}
