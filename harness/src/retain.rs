//! C22: what a parse allocated is gone once its result has been dropped.

use crate::alloc;
use crate::checks::{Case, Res, Stats};
use crate::obs::guarded;
use wavefront_obj::{mtl, obj};

/// The text with its names and coordinates made distinct for each `k`, at the
/// same length for every `k`.
fn variant(t: &str, k: usize) -> String {
    let tag = format!("{k:06}");
    let mut s = String::with_capacity(t.len() * 2);
    let mut word = String::new();
    let mut keyword = String::new();
    let mut comment = false;
    let flush = |word: &mut String, s: &mut String, end: char, keyword: &mut String| {
        if !word.is_empty() {
            s.push_str(word);
            if keyword.is_empty() {
                *keyword = word.clone();
            } else {
                match keyword.as_str() {
                    "o" | "g" | "usemtl" | "mtllib" | "newmtl" | "disp" | "decal" | "bump" => s.push_str(&tag),
                    k if k.starts_with("map_") => s.push_str(&tag),
                    _ if word.contains('.') && word.bytes().all(|b| b.is_ascii_digit() || b == b'.' || b == b'-') => s.push_str(&tag),
                    _ => {}
                }
            }
            word.clear();
        }
        if end == '\n' || end == '\r' {
            keyword.clear();
        }
    };
    for c in t.chars() {
        if comment && c != '\n' && c != '\r' {
            s.push(c);
            continue;
        }
        if c == '#' || c == '\n' || c == '\r' || c == ' ' || c == '\t' || c == '\\' {
            flush(&mut word, &mut s, c, &mut keyword);
            comment = c == '#';
            s.push(c);
            if comment {
                s.push_str(&tag);
            }
        } else {
            word.push(c);
        }
    }
    flush(&mut word, &mut s, ' ', &mut keyword);
    s
}

/// Parse, use and drop; true if it was accepted.
fn once(m: bool, t: &str) -> bool {
    guarded(|| {
        if m {
            match mtl::parse(t) {
                Ok(s) => {
                    std::hint::black_box((&s, format!("{s:?}")));
                    true
                }
                Err(e) => {
                    std::hint::black_box((e.to_string(), format!("{e:?}")));
                    false
                }
            }
        } else {
            match obj::parse(t) {
                Ok(s) => {
                    let c = s.clone();
                    std::hint::black_box((&s, &c));
                    if c.objects.len() < 20 {
                        std::hint::black_box(s.to_string());
                    }
                    for o in s.objects.iter() {
                        std::hint::black_box(o.to_string());
                    }
                    true
                }
                Err(e) => {
                    std::hint::black_box(e.to_string());
                    false
                }
            }
        }
    })
    .unwrap_or(false)
}

/// Live bytes gained over `n` parses of texts numbered from `from`.
fn gained(c: &Case, from: usize, n: usize, distinct: bool) -> i64 {
    let before = alloc::live();
    for k in from..from + n {
        let t = if distinct { variant(&c.text, k) } else { c.text.clone() };
        once(c.mtl, &t);
    }
    alloc::live() - before
}

pub fn released(c: &Case, st: &mut Stats) -> Res {
    st.trivial = c.text.is_empty();
    let (warm, n) = if c.text.len() < 4_000 { (6, 12) } else { (2, 3) };
    let mark = alloc::mark();
    st.add(if once(c.mtl, &c.text) { "accepted" } else { "rejected" }, 1);
    st.add("bytes_allocated", alloc::since(&mark).total);
    for distinct in [false, true] {
        gained(c, 0, warm, distinct);
        let g = gained(c, warm, n, distinct);
        st.add("parses_measured", n as u64);
        if g < n as i64 {
            continue;
        }
        // Something stayed. A bounded cache fills up and stops growing.
        let many = (20_000_000 / (c.text.len() + 1)).clamp(40, 4_000);
        let a = gained(c, 1_000, many, distinct);
        let b = gained(c, 1_000 + many, many, distinct);
        if b >= many as i64 && b * 4 > a {
            return Err(format!(
                "{} parses of {} left {b} bytes allocated after every result was dropped, and {many} before them {a}",
                many,
                if distinct { "texts that differ in names and coordinates" } else { "one text" }
            ));
        }
        st.add("bounded_caches", 1);
    }
    Ok(())
}

/// Every parse on a thread of its own, which then ends.
pub fn fresh(args: &[String]) -> i32 {
    use crate::run::{make_plan, num, opt};
    std::panic::set_hook(Box::new(|_| {}));
    let mut plan = make_plan("C22", args);
    plan.stress.clear();
    let base = plan.fixed();
    alloc::count_all();
    let window = |f: &(dyn Fn() + Sync), n: usize| {
        let before = alloc::all_live();
        for _ in 0..n {
            std::thread::scope(|s| {
                s.spawn(f);
            });
        }
        alloc::all_live() - before
    };
    let (mut parses, mut kept) = (0, 0);
    for i in 0..num(args, "texts", 40) as usize {
        let c = crate::cases::case("C22", &plan, base + i);
        let parse = || {
            once(c.mtl, &c.text);
        };
        let nothing = || {};
        let few = 30;
        window(&nothing, few);
        window(&parse, few);
        parses += 2 * few;
        // A thread that does nothing costs something too.
        if window(&parse, few) - window(&nothing, few).max(0) < few as i64 {
            continue;
        }
        kept += 1;
        let many = 400;
        window(&parse, many);
        let (a, b, idle) = (window(&parse, many), window(&parse, many), window(&nothing, many).max(0));
        parses += 3 * many;
        if a.min(b) - idle >= many as i64 {
            if let Some(p) = opt(args, "replay") {
                crate::run::save(p, "C22", &c, "parsed on fresh threads, this text leaves memory behind");
            }
            eprintln!("{many} parses of a text of {} bytes, each on its own thread that has ended, left {} bytes allocated", c.text.len(), a.min(b));
            return 1;
        }
    }
    println!("{{\"parses\": {parses}, \"texts_looked_at_twice\": {kept}, \"violations\": 0}}");
    0
}

#[cfg(test)]
mod tests {
    #[test]
    fn variants_keep_length_and_differ() {
        let t = "o a # x\nv 1.5 2 3\r\nf 1 2 3\nusemtl b";
        let (a, b) = (super::variant(t, 1), super::variant(t, 2));
        assert_eq!(a.len(), b.len());
        assert_ne!(a, b);
        assert_eq!(a, "o a000001 #000001 x\nv 1.5000001 2 3\r\nf 1 2 3\nusemtl b000001");
    }
}
