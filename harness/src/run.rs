//! Drives a property's monitor over its cases, in parallel; records what was
//! observed; minimises and saves a violating case.

use crate::cases::{self, Plan};
use crate::checks::{self, Case, Stats};
use crate::model::{self, Seen, Verdict};
use crate::obs::guarded;
use crate::rng::fnv;
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const STACK: usize = 8 << 20;

pub fn opt<'a>(args: &'a [String], key: &str) -> Option<&'a str> {
    args.iter().find_map(|a| a.strip_prefix(key).and_then(|r| r.strip_prefix('=')))
}
pub fn num(args: &[String], key: &str, default: u64) -> u64 {
    opt(args, key).map_or(default, |v| v.parse().unwrap_or_else(|_| panic!("bad {key}")))
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{2029}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn make_plan(prop: &str, args: &[String]) -> Plan {
    let repo = opt(args, "repo").unwrap_or("/repo");
    let mut p = cases::plan(
        prop,
        num(args, "seed", 1),
        num(args, "thorough", 0) == 1,
        &format!("{repo}/src"),
        &format!("{repo}/assets"),
    );
    if num(args, "fixed", 1) == 0 {
        p.stress.clear();
        p.asset_cases = 0;
    }
    let max = num(args, "max_size", u64::MAX) as usize;
    p.stress.retain(|s| s.2 <= max);
    if num(args, "assets", 1) == 0 {
        p.asset_cases = 0;
    }
    p
}

pub fn saved(prop: &str, c: &Case, note: &str) -> Vec<u8> {
    let head = format!("MONCASE property={} mtl={} aux={} note={}\n", prop, c.mtl as u8, c.aux, note.replace(['\n', '\r'], " "));
    let mut b = head.into_bytes();
    b.extend_from_slice(c.text.as_bytes());
    b
}

pub fn save(path: &str, prop: &str, c: &Case, note: &str) {
    let b = saved(prop, c, note);
    if let Some(dir) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(dir);
    }
    if let Err(e) = std::fs::write(path, b) {
        eprintln!("cannot write {path}: {e}");
    }
}

pub fn load(path: &str) -> Option<(String, Case)> {
    let b = std::fs::read(path).ok()?;
    let at = b.iter().position(|c| *c == b'\n')?;
    let head = std::str::from_utf8(&b[..at]).ok()?;
    let mut text = &b[at + 1..];
    // a slot that is written again and again may hold the rest of a longer text
    if let Some(n) = head.rsplit("note=len=").next().and_then(|n| n.parse::<usize>().ok()) {
        text = text.get(..n)?;
    }
    let text = std::str::from_utf8(text).ok()?;
    let get = |k: &str| head.split(' ').find_map(|w| w.strip_prefix(k)).map(String::from);
    Some((
        get("property=")?,
        Case { mtl: get("mtl=")? == "1", aux: get("aux=")?.parse().ok()?, text: text.to_string(), valid: false },
    ))
}

/// Smallest failing variant found within the time allowed.
pub fn minimise(prop: &str, c: &Case, msg: String) -> (Case, String) {
    let until = Instant::now() + Duration::from_secs(12);
    let mut best = Case { valid: false, ..c.clone() };
    let mut best_msg = msg;
    let fails = |t: String| -> Option<(Case, String)> {
        let k = Case { text: t, ..best_clone(c) };
        let mut st = Stats::default();
        match guarded(|| checks::check(prop, &k, &mut st)) {
            Ok(Err(m)) => Some((k, m)),
            _ => None,
        }
    };
    for words in [false, true] {
        let mut size = usize::MAX;
        loop {
            let parts: Vec<String> = if words {
                split_words(&best.text)
            } else {
                best.text.split_inclusive('\n').map(String::from).collect()
            };
            size = size.min(parts.len().div_ceil(2)).max(1);
            let mut shrunk = false;
            let mut i = 0;
            let mut cur = parts;
            while i < cur.len() {
                if Instant::now() > until {
                    return (best, best_msg);
                }
                let j = (i + size).min(cur.len());
                let t: String = cur[..i].iter().chain(&cur[j..]).map(|s| s.as_str()).collect();
                if let Some((k, m)) = fails(t) {
                    best = k;
                    best_msg = m;
                    cur.drain(i..j);
                    shrunk = true;
                } else {
                    i = j;
                }
            }
            if size == 1 && !shrunk {
                break;
            }
            if !shrunk {
                size /= 2;
            }
        }
    }
    (best, best_msg)
}
fn best_clone(c: &Case) -> Case {
    Case { valid: false, ..c.clone() }
}
fn split_words(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in t.chars() {
        let sep = c == ' ' || c == '\n' || c == '\r' || c == '\t';
        match v.last_mut() {
            Some(w) if !sep && !w.ends_with([' ', '\n', '\r', '\t']) => w.push(c),
            Some(w) if sep && (c == ' ' || c == '\t') && !w.ends_with([' ', '\n', '\r', '\t']) => w.push(c),
            _ => v.push(c.to_string()),
        }
    }
    v
}

/// Nanoseconds this thread has spent on a CPU.
fn cpu_ns(tid: u64) -> u64 {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat"))
        .ok()
        .and_then(|s| s.split(' ').next().and_then(|x| x.parse().ok()))
        .unwrap_or(0)
}
fn my_tid() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|s| s.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

struct Slot {
    index: AtomicU64,
    tid: AtomicU64,
}

pub fn run(args: &[String]) -> i32 {
    let prop = args[0].clone();
    let plan = make_plan(&prop, args);
    let threads = num(args, "threads", 8) as usize;
    let total = plan.fixed() + num(args, "cases", 1000) as usize;
    let max_secs = num(args, "max_secs", 600);
    let max_text = num(args, "max_text", u64::MAX) as usize;
    let hang_secs = num(args, "hang_secs", 40);
    let from = num(args, "from", 0) as usize;
    let stack = num(args, "stack", STACK as u64) as usize;
    let state = opt(args, "state").map(|p| std::fs::File::create(p).expect("state file"));
    let start = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));

    let next = AtomicUsize::new(from);
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let unmade = AtomicUsize::new(0);
    let found: Mutex<Vec<(usize, Case, String)>> = Mutex::new(vec![]);
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let sum: Mutex<(Stats, HashSet<u64>, Vec<(usize, String)>, u64, usize)> =
        Mutex::new((Stats::default(), HashSet::new(), vec![], 0, 0));
    let slots: Vec<Slot> = (0..threads).map(|_| Slot { index: AtomicU64::new(0), tid: AtomicU64::new(0) }).collect();

    std::thread::scope(|sc| {
        for t in 0..threads {
            let (plan, prop, next, stop, found, herr, sum, slots, state, done, unmade) =
                (&plan, &prop, &next, &stop, &found, &herr, &sum, &slots, &state, &done, &unmade);
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(sc, move || {
                    slots[t].tid.store(my_tid(), SeqCst);
                    let mut total_st = Stats::default();
                    let mut distinct = HashSet::new();
                    let mut samples: Vec<(usize, String)> = vec![];
                    let mut bytes = 0u64;
                    let mut evals = 0usize;
                    while !stop.load(SeqCst) {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= total || start.elapsed().as_secs() > max_secs {
                            break;
                        }
                        let mut c = match guarded(|| cases::case(prop, plan, i)) {
                            Ok(c) => c,
                            Err(p) => {
                                // Not a case; too many of these and the run decides nothing.
                                if unmade.fetch_add(1, SeqCst) >= 20 {
                                    *herr.lock().unwrap() = Some(format!("case {i}: generator panicked: {p}"));
                                    stop.store(true, SeqCst);
                                    break;
                                }
                                continue;
                            }
                        };
                        if c.text.len() > max_text {
                            let mut k = max_text;
                            while !c.text.is_char_boundary(k) {
                                k -= 1;
                            }
                            c.text.truncate(k);
                            c.valid = false;
                        }
                        if let Some(f) = state {
                            let _ = f.write_at(&(i as u64 + 1).to_le_bytes(), 8 * t as u64);
                        }
                        slots[t].index.store(i as u64 + 1, SeqCst);
                        let mut st = Stats::default();
                        let res = guarded(|| checks::check(prop, &c, &mut st));
                        slots[t].index.store(0, SeqCst);
                        evals += 1;
                        bytes += c.text.len() as u64;
                        match res {
                            Err(p) => {
                                *herr.lock().unwrap() = Some(format!("case {i}: monitor panicked: {p}"));
                                stop.store(true, SeqCst);
                            }
                            Ok(Err(m)) => {
                                found.lock().unwrap().push((i, c, m));
                                stop.store(true, SeqCst);
                                continue;
                            }
                            Ok(Ok(())) => {}
                        }
                        if let Some(h) = &st.harness_error {
                            *herr.lock().unwrap() = Some(format!("case {i}: {h}\n{:?}", c.text.chars().take(2000).collect::<String>()));
                            stop.store(true, SeqCst);
                        }
                        if !st.trivial {
                            distinct.insert(fnv(c.text.as_bytes()) ^ c.mtl as u64);
                            if samples.len() < 4 && c.text.len() < 260 && c.text.len() > 20 && i >= plan.fixed() {
                                samples.push((i, c.text.clone()));
                            }
                        }
                        total_st.merge(&st);
                    }
                    if let Some(f) = state {
                        let _ = f.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                    }
                    let mut g = sum.lock().unwrap();
                    g.0.merge(&total_st);
                    g.1.extend(distinct);
                    g.2.extend(samples);
                    g.3 += bytes;
                    g.4 += evals;
                    done.fetch_add(1, SeqCst);
                })
                .expect("spawn");
        }
        // Watchdog: a case that keeps a CPU busy for far longer than any text
        // of its size can need ends the process; the driver investigates.
        if !cfg!(miri) {
            let mut seen: Vec<(u64, u64)> = vec![(0, 0); threads];
            while done.load(SeqCst) < threads {
                std::thread::sleep(Duration::from_millis(20));
                for (t, s) in slots.iter().enumerate() {
                    let i = s.index.load(SeqCst);
                    let tid = s.tid.load(SeqCst);
                    if i == 0 || tid == 0 {
                        continue;
                    }
                    if seen[t].0 != i {
                        seen[t] = (i, cpu_ns(tid));
                    } else {
                        let used = cpu_ns(tid).saturating_sub(seen[t].1);
                        if used > hang_secs * 1_000_000_000 && s.index.load(SeqCst) == i {
                            eprintln!("HANG index={} cpu_s={}", i - 1, used / 1_000_000_000);
                            if let Some(f) = &state {
                                let _ = f.write_at(&[0u8; 8].repeat(threads), 0);
                                let _ = f.write_at(&i.to_le_bytes(), 0);
                            }
                            std::process::exit(42);
                        }
                    }
                }
            }
        }
    });

    let g = sum.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let mut out = String::from("{\n");
    out += &format!(" \"evaluations\": {},\n \"distinct_nontrivial\": {},\n", g.4, g.1.len());
    out += &format!(" \"bytes_parsed\": {},\n \"planned\": {},\n \"cases_not_generated\": {},\n", g.3, total - from, unmade.load(SeqCst));
    out += &format!(" \"boundary_size_cases\": {},\n \"asset_cases\": {},\n", plan.stress.len(), plan.asset_cases);
    out += &format!(" \"statements_modelled\": {},\n \"lines_modelled\": {},\n \"elements_modelled\": {},\n \"objects_or_materials_modelled\": {},\n", g.0.seen.statements, g.0.seen.lines, g.0.seen.elements, g.0.seen.objects);
    out += " \"events\": {";
    out += &g.0.ev.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", ");
    out += "},\n \"samples\": [";
    let mut smp = g.2;
    smp.sort();
    smp.truncate(4);
    out += &smp.iter().map(|(i, s)| format!("{{\"index\": {i}, \"text\": {}}}", json(s))).collect::<Vec<_>>().join(", ");
    out += "]";
    let mut code = 0;
    if let Some((i, c, m)) = found.into_iter().next() {
        let (c2, m2) = minimise(&prop, &c, m);
        let path = opt(args, "replay").unwrap_or("replay.case");
        save(path, &prop, &c2, &m2);
        out += &format!(",\n \"violation\": {{\"index\": {i}, \"message\": {}, \"replay\": {}, \"text\": {}}}", json(&m2), json(path), json(&c2.text.chars().take(1500).collect::<String>()));
        eprintln!("case {i}: {m2}\n{:?}", c2.text.chars().take(600).collect::<String>());
        code = 1;
    } else if let Some(h) = herr.into_inner().unwrap() {
        out += &format!(",\n \"harness_error\": {}", json(&h));
        eprintln!("HARNESS ERROR {h}");
        code = 2;
    }
    out += "\n}\n";
    if let Some(p) = opt(args, "out") {
        std::fs::write(p, &out).expect("write report");
    } else {
        println!("{out}");
    }
    code
}

fn specified(c: &Case) -> bool {
    let mut s = Seen::default();
    if c.mtl {
        !matches!(model::mtl(&c.text, &mut s), Verdict::Unspecified(_))
    } else {
        !matches!(model::obj(&c.text, &mut s), Verdict::Unspecified(_))
    }
}

fn judge_alone(prop: &str, c: &Case, stack: usize) -> i32 {
    println!("{}", if specified(c) { "SPECIFIED" } else { "UNSPECIFIED" });
    let (prop, c) = (prop.to_string(), c.clone());
    std::panic::set_hook(Box::new(|_| {}));
    // Same stack size as in the run.
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
        let mut st = Stats::default();
        guarded(|| checks::check(&prop, &c, &mut st))
    });
    match h.unwrap().join() {
        Ok(Ok(Ok(()))) => {
            println!("HELD");
            0
        }
        Ok(Ok(Err(m))) => {
            println!("VIOLATED {m}");
            1
        }
        _ => {
            println!("MONITOR PANICKED");
            2
        }
    }
}

/// Regenerate and judge a single case of the plan in this process.
pub fn one(args: &[String]) -> i32 {
    let plan = make_plan(&args[0], args);
    let mut c = cases::case(&args[0], &plan, num(args, "index", 0) as usize);
    let max_text = num(args, "max_text", u64::MAX) as usize;
    if c.text.len() > max_text {
        let mut k = max_text;
        while !c.text.is_char_boundary(k) {
            k -= 1;
        }
        c.text.truncate(k);
    }
    if let Some(p) = opt(args, "save") {
        save(p, &args[0], &c, "crash or hang");
    }
    judge_alone(&args[0], &c, num(args, "stack", STACK as u64) as usize)
}

pub fn replay(args: &[String]) -> i32 {
    match load(&args[0]) {
        Some((prop, c)) => judge_alone(&prop, &c, STACK),
        None => {
            eprintln!("cannot read {}", args[0]);
            2
        }
    }
}

/// Write the texts of a plan to a file, for interpreters too slow to generate them.
pub fn dump(args: &[String]) -> i32 {
    let plan = make_plan(&args[0], args);
    let max_text = num(args, "max_text", u64::MAX) as usize;
    let want = num(args, "cases", 100) as usize;
    let (mut out, mut n, mut i) = (vec![], 0, plan.fixed());
    while n < want {
        let c = cases::case(&args[0], &plan, i);
        i += 1;
        if c.text.len() > max_text {
            continue;
        }
        out.extend_from_slice(format!("{} {}\n", c.mtl as u8, c.text.len()).as_bytes());
        out.extend_from_slice(c.text.as_bytes());
        n += 1;
    }
    std::fs::write(opt(args, "out").expect("out="), out).expect("write");
    0
}

/// Judge the texts of a dumped file, one after another.
pub fn file(args: &[String]) -> i32 {
    let b = std::fs::read(opt(args, "file").expect("file=")).expect("read");
    std::panic::set_hook(Box::new(|_| {}));
    let (mut k, mut n, mut st) = (0, 0u64, Stats::default());
    while k < b.len() {
        let e = k + b[k..].iter().position(|x| *x == b'\n').expect("header");
        let head = std::str::from_utf8(&b[k..e]).expect("header");
        let len: usize = head[2..].parse().expect("length");
        let text = String::from_utf8(b[e + 1..e + 1 + len].to_vec()).expect("text");
        k = e + 1 + len;
        let c = Case { mtl: head.starts_with('1'), text, aux: 1, valid: false };
        if let Err(m) = checks::check(&args[0], &c, &mut st) {
            println!("VIOLATED {m}\n{:?}", c.text);
            return 1;
        }
        n += 1;
    }
    println!("JUDGED {n} {}", st.ev.get("strings_checked").copied().unwrap_or(0));
    0
}
