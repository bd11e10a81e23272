//! C18: executions of the same text in different processes, orders, histories
//! and threads must agree.

use crate::cases;
use crate::obs::{self, guarded};
use crate::rng::{fnv, Rng};
use crate::run::{make_plan, num, opt};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use wavefront_obj::{mtl, obj};

fn fp(mtl_text: bool, t: &str) -> u64 {
    let s = if mtl_text {
        guarded(|| obs::fingerprint_mtl(&mtl::parse(t)))
    } else {
        guarded(|| obs::fingerprint_obj(&obj::parse(t)))
    };
    fnv(s.unwrap_or_else(|_| "PANIC".into()).as_bytes())
}

/// Texts of the run: `seed=`, `from=`, `to=` (indices among the random cases).
fn texts(args: &[String]) -> Vec<(usize, bool, String)> {
    let mut plan = make_plan("C18", args);
    plan.stress.retain(|s| s.2 < 300);
    let base = plan.fixed();
    let (from, to) = (num(args, "from", 0) as usize, num(args, "to", 100) as usize);
    let max = num(args, "max_text", u64::MAX) as usize;
    (from..to)
        .map(|i| {
            let c = cases::case("C18", &plan, base + i);
            (i, c.mtl, c.text)
        })
        .filter(|c| c.2.len() <= max)
        .collect()
}

/// Print `index fingerprint` for each text, parsed in the given order.
pub fn digest(args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let ts = texts(args);
    let mut order: Vec<usize> = (0..ts.len()).collect();
    let mut r = Rng::new(&[num(args, "seed", 1), 77]);
    match opt(args, "order") {
        Some("rev") => order.reverse(),
        Some("shuffle") => {
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i + 1));
            }
        }
        _ => {}
    }
    let polluted = num(args, "history", 0) == 1;
    let mut out: Vec<(usize, u64)> = vec![];
    for k in order {
        if polluted {
            // whatever was parsed before, including failures and both formats
            for _ in 0..r.range(0, 4) {
                let o = &ts[r.below(ts.len())];
                std::hint::black_box(fp(r.pct(30), &o.2));
            }
        }
        out.push((ts[k].0, fp(ts[k].1, &ts[k].2)));
    }
    out.sort();
    let s: String = out.iter().map(|(i, f)| format!("{i} {f:016x}\n")).collect();
    print!("{s}");
    0
}

/// Parse the same texts on many threads at once; compare with a lone parse.
pub fn threads(args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let n = num(args, "threads", 8) as usize;
    let rounds = num(args, "rounds", 3);
    let ts = Arc::new(texts(args));
    // `late=1`: the first parses of the process happen concurrently.
    let late = num(args, "late", 0) == 1;
    let lone = |ts: &[(usize, bool, String)]| -> Vec<u64> { ts.iter().map(|t| fp(t.1, &t.2)).collect() };
    let before: Option<Vec<u64>> = (!late).then(|| lone(&ts));
    let live = Arc::new(AtomicU64::new(0));
    let most = Arc::new(AtomicU64::new(0));
    let overlaps = Arc::new(AtomicU64::new(0));
    let mut seen: Vec<(usize, usize, u64)> = vec![];
    let mut parses = 0u64;
    for round in 0..rounds {
        let bar = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (ts, bar, live, most, overlaps) = (ts.clone(), bar.clone(), live.clone(), most.clone(), overlaps.clone());
                let same = round % 2 == 0;
                std::thread::spawn(move || {
                    let mut r = Rng::new(&[t as u64, round, 5]);
                    let mut got = vec![];
                    bar.wait();
                    for i in 0..ts.len() {
                        // all threads on the same text, or each on its own
                        let k = if same { i } else { (i * 7 + t * 13 + r.below(5)) % ts.len() };
                        let c = live.fetch_add(1, SeqCst) + 1;
                        most.fetch_max(c, SeqCst);
                        if c > 1 {
                            overlaps.fetch_add(1, SeqCst);
                        }
                        let f = fp(ts[k].1, &ts[k].2);
                        live.fetch_sub(1, SeqCst);
                        got.push((k, f));
                        if r.pct(20) {
                            std::thread::yield_now();
                        }
                    }
                    got
                })
            })
            .collect();
        for (t, h) in hs.into_iter().enumerate() {
            for (k, f) in h.join().expect("thread") {
                parses += 1;
                seen.push((k, t, f));
            }
        }
    }
    let want = before.unwrap_or_else(|| lone(&ts));
    let mut code = 0;
    for (k, t, f) in seen {
        if f != want[k] && code == 0 {
            code = 1;
            if let Some(p) = opt(args, "replay") {
                let c = crate::checks::Case { mtl: ts[k].1, text: ts[k].2.clone(), aux: 0, valid: false };
                crate::run::save(p, "C18", &c, &format!("thread {t} parsed this text differently from a lone parse"));
            }
            eprintln!("thread {t}: text {} parsed differently from a lone parse: {:?}", ts[k].0, ts[k].2.chars().take(300).collect::<String>());
        }
    }
    println!(
        "{{\"concurrent_parses\": {parses}, \"texts\": {}, \"threads\": {n}, \"started_while_others_ran\": {}, \"most_at_once\": {}}}",
        ts.len(),
        overlaps.load(SeqCst),
        most.load(SeqCst)
    );
    code
}

/// Save one text of the digest run.
pub fn history(args: &[String]) -> i32 {
    let ts = texts(args);
    if let (Some(p), Some(t)) = (opt(args, "save"), ts.first()) {
        let c = crate::checks::Case { mtl: t.1, text: t.2.clone(), aux: 0, valid: false };
        crate::run::save(p, "C18", &c, opt(args, "note").unwrap_or(""));
    }
    0
}
