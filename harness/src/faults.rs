//! Targeted faults: turn a well-formed document into one with a specific kind
//! of defect. The oracle, not the generator, decides what the result means.

use crate::gen::{self, Dict, Doc};
use crate::rng::Rng;

/// File-wide counts and object base at line `i` of the document.
pub fn counts_at(doc: &Doc, i: usize) -> ([usize; 3], [usize; 3]) {
    let (mut c, mut b) = ([0; 3], [0; 3]);
    for l in &doc[..i] {
        match l[0].as_str() {
            "v" => c[0] += 1,
            "vt" => c[1] += 1,
            "vn" => c[2] += 1,
            "o" => b = c,
            _ => {}
        }
    }
    (c, b)
}

fn pick_line(r: &mut Rng, doc: &Doc, kws: &[&str]) -> Option<usize> {
    // Only lines that still have operands (an earlier fault may have cut them).
    let c: Vec<usize> =
        (0..doc.len()).filter(|&i| doc[i].len() > 1 && kws.contains(&doc[i][0].as_str())).collect();
    if c.is_empty() {
        None
    } else {
        Some(match r.below(6) {
            0 => c[0],
            1 => c[c.len() - 1],
            _ => *r.pick(&c),
        })
    }
}

fn pick_pos(r: &mut Rng, n: usize) -> usize {
    match r.below(6) {
        0 => 0,
        1 | 2 => n - 1,
        _ => r.below(n),
    }
}

/// One index of one element becomes unresolvable.
pub fn bad_index(r: &mut Rng, d: &Dict, doc: &mut Doc) {
    let Some(i) = pick_line(r, doc, &["p", "l", "f"]) else {
        let b = r.pick(&["0", "1", "-1", "2"]).to_string();
        let kw = r.pick(&["p", "l", "f"]).to_string();
        doc.push(vec![kw, b.clone(), b.clone(), b]);
        return;
    };
    if doc[i].len() < 2 {
        return;
    }
    let (c, b) = counts_at(doc, i);
    let j = 1 + pick_pos(r, doc[i].len() - 1);
    let mut parts: Vec<String> = doc[i][j].split('/').map(|s| s.to_string()).collect();
    let used: Vec<usize> = (0..parts.len().min(3)).filter(|&k| !parts[k].is_empty()).collect();
    if used.is_empty() {
        return;
    }
    let k = *r.pick(&used);
    let near = r.range(1, 3);
    parts[k] = match r.below(20) {
        0 | 1 => r.pick(&["0", "00", "-0", "000"]).to_string(),
        2..=5 => format!("{}", c[k] + near),
        6..=9 => format!("-{}", c[k] - b[k] + near),
        10 => format!("-{}", c[k] + near),
        11 if b[k] > 0 => format!("{}", r.range(1, b[k])),
        12 if b[k] > 0 => format!("{}", b[k]),
        13 => {
            // wraps in 8, 16, 32 or 64 bits to something valid
            let m = *r.pick(&[1u128 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 1 << 64, 1 << 65]) * r.range(1, 3) as u128;
            let g = if c[k] > b[k] { r.range(b[k] + 1, c[k]) } else { 1 } as u128;
            let back = (c[k] as u128 + 1).saturating_sub(g).max(1);
            match r.below(4) {
                0 => format!("-{}", m - g.min(m - 1)),
                1 => format!("-{}", m + back),
                _ => format!("{}", m + g),
            }
        }
        14 => r
            .pick(&[
                "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                "18446744073709551615", "18446744073709551616", "2147483648", "4294967297", "65537", "257",
            ])
            .to_string(),
        15 => d.size(r, usize::MAX).unwrap_or(0).to_string(),
        16 => gen::bad_word(r, d),
        17 => format!("{}{}", parts[k], r.pick(&["x", ".", ".0", ",", "-", "e0", "\u{a0}", "é"])),
        18 => r.pick(&["x", "1.0", "--1", "-", "1e0", "0x1", "١", "off", "v"]).to_string(),
        _ => String::new(),
    };
    doc[i][j] = parts.join("/");
    if doc[i][j].is_empty() {
        doc[i][j] = "x".into();
    }
}

/// Too few operands or mixed index forms.
pub fn bad_shape(r: &mut Rng, doc: &mut Doc) {
    let Some(i) = pick_line(r, doc, &["p", "l", "f"]) else { return };
    let need = match doc[i][0].as_str() {
        "p" => 1,
        "l" => 2,
        _ => 3,
    };
    if doc[i].len() < 2 {
        return;
    }
    if r.pct(45) || doc[i][0] == "p" {
        let keep = r.below(need);
        doc[i].truncate(1 + keep);
        return;
    }
    // Change the form of one or more operands, keeping the parts resolvable.
    let (c, b) = counts_at(doc, i);
    let times = if r.pct(75) { 1 } else { r.range(1, doc[i].len() - 1) };
    for _ in 0..times {
        let j = 1 + pick_pos(r, doc[i].len() - 1);
        let v = doc[i][j].split('/').next().unwrap().to_string();
        let mut forms = vec![v.clone()];
        let pick = |r: &mut Rng, k: usize| r.range(b[k] + 1, c[k]).to_string();
        let t = (c[1] > b[1]).then(|| pick(r, 1));
        let n = (c[2] > b[2]).then(|| pick(r, 2));
        if let Some(t) = &t {
            forms.push(format!("{}/{}", v, t));
        }
        if let Some(n) = &n {
            forms.push(format!("{}//{}", v, n));
        }
        if let (Some(t), Some(n)) = (&t, &n) {
            forms.push(format!("{}/{}/{}", v, t, n));
        }
        doc[i][j] = r.pick(&forms).clone();
    }
}

fn twist(r: &mut Rng, kw: &str) -> String {
    match r.below(8) {
        0 => kw.to_uppercase(),
        1 => format!("{}{}", kw, r.pick(&["x", "1", "_", ":", "/", ".", "\u{a0}", "é"])),
        2 => format!("{}{}", r.pick(&["x", "1", "_", "\"", "-", "\u{feff}"]), kw),
        3 => format!("{}{}", kw, kw),
        4 if kw.chars().count() > 1 => kw.chars().take(kw.chars().count() - 1).collect(),
        5 if kw.chars().count() > 1 => kw.chars().skip(1).collect(),
        6 => kw.chars().rev().collect(),
        _ => {
            let mut c = kw.chars();
            let f = c.next().unwrap_or('x');
            format!("{}{}", f.to_uppercase(), c.as_str())
        }
    }
}

/// A malformed OBJ statement of some kind.
pub fn bad_statement(r: &mut Rng, d: &Dict, doc: &mut Doc) {
    let bad_num = |r: &mut Rng, d: &Dict| match r.below(4) {
        0 => gen::bad_word(r, d),
        1 => format!("{}{}", gen::number(r, d), r.pick(&["x", ",", "f", "d0", "e", "_1", "%", "/1", "\u{a0}", ".1.1"])),
        2 => r.pick(&["1,5", "1.2.3", "--1", "1e", "e1", "0x10", ".", "-", "+", "1_000", "½", "٣", "1f", "one"]).to_string(),
        _ => gen::name(r, d),
    };
    match r.below(14) {
        // unknown or free-form statement
        0 | 1 => {
            if r.pct(40) {
                let l = gen::foreign(r, d, false);
                let i = r.below(doc.len() + 1);
                doc.insert(i, l);
                return;
            }
            let n = r.range(0, 4);
            let mut l = vec![match r.below(4) {
                0 | 1 => r.pick(&gen::FREE_FORM).to_string(),
                2 => twist(r, *r.clone().pick(&["v", "vt", "vn", "g", "s", "o", "p", "l", "f", "usemtl", "mtllib"])),
                _ => gen::bad_word(r, d),
            }];
            (0..n).for_each(|_| l.push(if r.pct(70) { r.range(0, 4).to_string() } else { gen::bad_word(r, d) }));
            let i = r.below(doc.len() + 1);
            doc.insert(i, l);
        }
        2 => {
            // twist a keyword in place
            if !doc.is_empty() {
                let i = r.below(doc.len());
                doc[i][0] = twist(r, &doc[i][0].clone());
            }
        }
        // missing operand
        3 | 4 => {
            if let Some(i) = pick_line(r, doc, &["v", "vt", "vn", "s", "usemtl", "o"]) {
                let need = match doc[i][0].as_str() {
                    "v" | "vn" => 3,
                    _ => 1,
                };
                doc[i].truncate(1 + r.below(need));
            }
        }
        // non-numeric operand
        5 | 6 => {
            if let Some(i) = pick_line(r, doc, &["v", "vt", "vn"]) {
                let j = 1 + pick_pos(r, doc[i].len() - 1);
                doc[i][j] = bad_num(r, d);
            }
        }
        // surplus operand
        7 | 8 => {
            if let Some(i) = pick_line(r, doc, &["v", "vt", "vn", "s", "usemtl", "o"]) {
                let full = match doc[i][0].as_str() {
                    "v" => 4,
                    "vt" | "vn" => 3,
                    _ => 1,
                };
                while doc[i].len() < 1 + full {
                    let x = gen::number(r, d);
                    doc[i].push(x);
                }
                let n = if r.pct(80) { 1 } else { r.range(2, 5) };
                for _ in 0..n {
                    let x = match r.below(3) {
                        0 => gen::number(r, d),
                        1 => gen::name(r, d),
                        _ => r.range(0, 3).to_string(),
                    };
                    doc[i].push(x);
                }
            }
        }
        // smoothing group that is neither off nor a number
        9 | 10 => {
            let w = match r.below(3) {
                0 => r
                    .pick(&["-1", "on", "OFF", "Off", "1.0", "1.5", "18446744073709551616", "off1", "null", "1e3", "of", "-0.5", "0x1", "1/2", "--", "o"])
                    .to_string(),
                1 => gen::bad_word(r, d),
                _ => gen::name(r, d),
            };
            let i = r.below(doc.len() + 1);
            doc.insert(i, vec!["s".into(), w]);
        }
        // nameless statement
        11 => {
            let i = r.below(doc.len() + 1);
            let kw = r.pick(&["o", "usemtl", "s"]).to_string();
            doc.insert(i, vec![kw]);
        }
        // late material library
        12 => {
            let i = if doc.is_empty() { 0 } else { r.range(1, doc.len()) };
            let nm = gen::name(r, d);
            doc.insert(i, vec!["mtllib".into(), nm]);
        }
        _ => {
            let other = doc.clone();
            gen::mutate(r, d, doc, &other);
        }
    }
}

/// A malformed MTL statement of some kind.
pub fn bad_mtl(r: &mut Rng, d: &Dict, doc: &mut Doc) {
    use crate::model::MTL_KEYWORDS as K;
    const NUMERIC: [&str; 7] = ["Ka", "Kd", "Ks", "Ke", "d", "Ns", "Ni"];
    match r.below(12) {
        0 | 1 => {
            if r.pct(40) {
                let l = gen::foreign(r, d, true);
                let i = r.below(doc.len() + 1);
                doc.insert(i, l);
                return;
            }
            let kw = match r.below(4) {
                0 | 1 => r.pick(&gen::MTL_UNKNOWN).to_string(),
                2 => twist(r, *r.clone().pick(&K)),
                _ => gen::bad_word(r, d),
            };
            let n = r.range(0, 4);
            let mut l = vec![kw];
            (0..n).for_each(|_| l.push(if r.pct(60) { gen::number(r, d) } else { gen::name(r, d) }));
            let i = r.below(doc.len() + 1);
            doc.insert(i, l);
        }
        2 => {
            // a statement before the first newmtl
            let kw = *r.pick(&K[1..]);
            let n = if NUMERIC[..4].contains(&kw) { 3 } else { 1 };
            let l = std::iter::once(kw.to_string())
                .chain((0..n).map(|_| if kw == "illum" { "1".into() } else { gen::number(r, d) }))
                .collect();
            doc.insert(0, l);
        }
        3 | 4 => {
            if let Some(i) = pick_line(r, doc, &K) {
                let n = doc[i].len();
                doc[i].truncate(1 + r.below(n - 1));
            }
        }
        5 | 6 => {
            if let Some(i) = pick_line(r, doc, &NUMERIC) {
                let j = 1 + pick_pos(r, doc[i].len() - 1);
                doc[i][j] = if r.pct(50) {
                    gen::bad_word(r, d)
                } else {
                    format!("{}{}", gen::number(r, d), r.pick(&["x", ",", "f", "e", "%", "/", "\u{a0}"]))
                };
            }
        }
        7 | 8 => {
            if let Some(i) = pick_line(r, doc, &K) {
                let n = if r.pct(80) { 1 } else { r.range(2, 4) };
                for _ in 0..n {
                    let x = if r.pct(60) { gen::number(r, d) } else { gen::name(r, d) };
                    doc[i].push(x);
                }
            }
        }
        9 => {
            let w = match r.below(3) {
                0 => r.pick(&["3", "4", "10", "11", "-1", "1.0", "1.5", "2.0", "on", "0x1", "256", "258", "65537", "4294967297", "18446744073709551617", "1e0", "01x", "²", "off"]).to_string(),
                1 => gen::bad_word(r, d),
                _ => r.below(300).to_string(),
            };
            let i = if doc.is_empty() { 0 } else { r.range(1, doc.len()) };
            doc.insert(i, vec!["illum".into(), w]);
        }
        10 => {
            let i = r.below(doc.len() + 1);
            let kw = r.pick(&["newmtl", "map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "bump", "disp", "map_d", "decal"]).to_string();
            doc.insert(i, vec![kw]);
        }
        _ => {
            let other = doc.clone();
            gen::mutate(r, d, doc, &other);
        }
    }
}
