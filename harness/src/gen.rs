//! Workload generation: structured OBJ/MTL documents, faults, mutations,
//! lexical noise, stress sizes.

use crate::model;
use crate::rng::Rng;

/// A document before rendering: lines of words.
pub type Doc = Vec<Vec<String>>;

/// Values picked up from the library's own source (numbers and string
/// literals), used only to steer the workload towards sizes and words the code
/// treats specially.
#[derive(Default, Clone, Debug)]
pub struct Dict {
    pub sizes: Vec<usize>,
    pub words: Vec<String>,
    pub floats: Vec<String>,
    /// Those not in the source the harness was written for (base_dict.txt).
    pub new_sizes: Vec<usize>,
    pub new_words: Vec<String>,
}

impl Dict {
    pub fn from_sources(dir: &str) -> Dict {
        let mut d = Dict::default();
        let mut files: Vec<_> = match std::fs::read_dir(dir) {
            Ok(r) => r.flatten().map(|e| e.path()).collect(),
            Err(_) => return d,
        };
        files.sort();
        for f in files {
            let Ok(src) = std::fs::read_to_string(&f) else { continue };
            let src = src.split("#[cfg(test)]").next().unwrap_or("");
            for line in src.lines() {
                let t = line.trim_start();
                if t.starts_with("//") || t.starts_with("* ") {
                    continue;
                }
                d.scan(t);
            }
        }
        d.sizes.sort_unstable();
        d.sizes.dedup();
        d.words.sort();
        d.words.dedup();
        d.floats.sort();
        d.floats.dedup();
        let base: std::collections::HashSet<&str> = include_str!("../base_dict.txt").lines().collect();
        d.new_sizes = d.sizes.iter().copied().filter(|n| !base.contains(format!("n {n}").as_str())).collect();
        d.new_words = d.words.iter().filter(|w| !base.contains(format!("w {w:?}").as_str())).cloned().collect();
        d
    }
    /// The contents of base_dict.txt.
    pub fn print(&self) {
        for n in &self.sizes {
            println!("n {n}");
        }
        for w in &self.words {
            println!("w {w:?}");
        }
    }
    /// A word the code mentions, or something close to it.
    pub fn word(&self, r: &mut Rng) -> Option<String> {
        let from = if !self.new_words.is_empty() && r.pct(60) { &self.new_words } else { &self.words };
        if from.is_empty() {
            return None;
        }
        let w = r.pick(from).clone();
        Some(match r.below(14) {
            0 => w + &r.below(10).to_string(),
            1 => w.to_uppercase(),
            2 => w.to_lowercase(),
            3 => {
                let mut c = w.chars();
                c.next().map_or(String::new(), |a| a.to_uppercase().chain(c).collect())
            }
            4 => format!("x{w}"),
            5 => format!("{w}{}", r.pick(&["x", ".mtl", "_2", "/", "é"])),
            6 => format!("{w}x{w}"),
            _ => w,
        })
    }
    fn scan(&mut self, t: &str) {
        let b: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            if c == '"' {
                let mut s = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' && i + 1 < b.len() {
                        i += 1;
                        s.push(match b[i] {
                            'n' => '\n',
                            't' => '\t',
                            'r' => '\r',
                            '0' => '\0',
                            'x' => {
                                let h: String = b[i + 1..].iter().take(2).collect();
                                i += 2.min(b.len() - i - 1);
                                u8::from_str_radix(&h, 16).map_or('x', char::from)
                            }
                            'u' => {
                                let h: String = b[i + 1..].iter().skip(1).take_while(|c| **c != '}').collect();
                                i += (h.len() + 2).min(b.len() - i - 1);
                                u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('u')
                            }
                            x => x,
                        });
                    } else {
                        s.push(b[i]);
                    }
                    i += 1;
                }
                for w in s.split(|c: char| c.is_ascii_whitespace() || c == '\\' || c == '#') {
                    if !w.is_empty() && w.len() <= 40 && !w.contains('{') && self.words.len() < 20_000 {
                        self.words.push(w.to_string());
                    }
                }
                i += 1;
            } else if c == '\'' && i + 2 < b.len() && b[i + 2] == '\'' {
                let ch = b[i + 1];
                if !ch.is_whitespace() && ch != '#' && ch != '\\' {
                    self.words.push(ch.to_string());
                    self.words.push(format!("a{}b", ch));
                }
                i += 3;
            } else if c == '\'' && i + 1 < b.len() && b[i + 1] == '\\' {
                // '\x0c', '\u{a0}'
                let lit: String = b[i + 2..].iter().take_while(|c| **c != '\'').collect();
                let h = lit.trim_start_matches(['x', 'u', '{']).trim_end_matches('}');
                if lit.len() > 1 {
                    if let Some(ch) = u32::from_str_radix(h, 16).ok().and_then(char::from_u32) {
                        self.words.push(ch.to_string());
                        self.words.push(format!("a{}b", ch));
                    }
                }
                i += lit.chars().count() + 3;
            } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
                let mut j = i;
                while j < b.len()
                    && (b[j].is_ascii_alphanumeric() || b[j] == '_' || (b[j] == '.' && j + 1 < b.len() && b[j + 1].is_ascii_digit()))
                {
                    j += 1;
                }
                let lit: String = b[i..j].iter().filter(|c| **c != '_').collect();
                let lit = lit
                    .trim_end_matches("usize")
                    .trim_end_matches("isize")
                    .trim_end_matches("u64")
                    .trim_end_matches("i64")
                    .trim_end_matches("u32")
                    .trim_end_matches("i32")
                    .trim_end_matches("u16")
                    .trim_end_matches("i16")
                    .trim_end_matches("u8")
                    .trim_end_matches("f64")
                    .trim_end_matches("f32");
                let v = if let Some(h) = lit.strip_prefix("0x") {
                    usize::from_str_radix(h, 16).ok()
                } else {
                    lit.parse::<usize>().ok()
                };
                if let Some(v) = v {
                    self.ints(v);
                    // `1 << 16`, `64 * 1024` and the like
                    let rest: String = b[j..].iter().filter(|c| **c != '_').collect();
                    let rest = rest.trim_start();
                    let digits = |t: &str| t.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().ok();
                    if let Some(k) = rest.strip_prefix("<<") {
                        match digits(k) {
                            Some(k) if k < 40 => self.ints(v << k),
                            _ => (3..18).for_each(|k| self.ints(1 << k)),
                        }
                    } else if let Some(k) = rest.strip_prefix('*').and_then(digits) {
                        self.ints(v.saturating_mul(k));
                    } else if let Some(k) = rest.strip_prefix(".pow(").and_then(digits) {
                        self.ints(v.saturating_pow(k.min(60) as u32));
                    }
                } else if let Ok(x) = lit.parse::<f64>() {
                    self.floats.push(lit.to_string());
                    if x.abs() < 1e7 {
                        self.ints(x.abs() as usize);
                    }
                }
                i = j;
            } else {
                i += 1;
            }
        }
        for (k, v) in [
            ("u8::MAX", 255usize),
            ("i8::MAX", 127),
            ("as u8", 256),
            ("as i8", 128),
            ("u16", 65536),
            ("i16", 32768),
        ] {
            if t.contains(k) {
                self.ints(v);
            }
        }
    }
    fn ints(&mut self, v: usize) {
        if self.sizes.len() < 20_000 {
            for x in [v.saturating_sub(1), v, v.saturating_add(1)] {
                self.sizes.push(x);
            }
            self.floats.push(v.to_string());
        }
    }
    /// A size up to `max`, if the dictionary has one above 3.
    pub fn size(&self, r: &mut Rng, max: usize) -> Option<usize> {
        let new = !self.new_sizes.is_empty() && r.pct(60);
        let from = if new { &self.new_sizes } else { &self.sizes };
        let c: Vec<usize> = from.iter().copied().filter(|&x| x > 3 && x <= max).collect();
        if c.is_empty() {
            None
        } else {
            Some(*r.pick(&c))
        }
    }
}

/// Sizes: mostly small, sometimes medium, sometimes a boundary.
pub fn size(r: &mut Rng, d: &Dict, max: usize) -> usize {
    let n = match r.below(100) {
        0..=59 => r.range(1, 6),
        60..=79 => r.range(4, 14),
        80..=88 => r.range(10, 60),
        89..=93 => *r.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        _ => d.size(r, max).unwrap_or_else(|| r.range(1, 40)),
    };
    n.min(max)
}

/// Number of words in a line, at most `max`.
pub fn arity(r: &mut Rng, d: &Dict, lo: usize, max: usize) -> usize {
    let n = match r.below(100) {
        0..=69 => lo + r.below(4),
        70..=89 => lo + r.below(12),
        90..=96 => lo + r.below(70),
        _ => d.size(r, max).unwrap_or(lo + r.below(30)),
    };
    n.clamp(lo, max.max(lo))
}

const HARD_NUMBERS: [&str; 62] = [
    "0", "-0", "0.0", "-0.0", "1", "-1", "1.0", "0.1", "-0.1", "1.", ".5", "-.5", "+1.5", "1e5", "1E5", "1e+05",
    "1E-05", "00012.5000", "-007", "1e308", "1.7976931348623157e308", "-1.7976931348623157e308", "1e-308",
    "2.2250738585072014e-308", "2.2250738585072011e-308", "4.9e-324", "5e-324", "2.4703282292062327e-324",
    "2.4703282292062328e-324", "1e-400", "9007199254740992", "9007199254740993", "9007199254740993.0000000001",
    "123456789012345678901234567890", "0.000000000000000000000000000000000000001", "3.4028235e38", "3.4028236e38",
    "1e39", "1e-46", "16777217", "16777217.5", "33554433.25", "0.30000000000000004", "0.3", "2147483647", "2147483648",
    "-2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "1.00000005960464477539", "8.41e21", "9.5367431640625e-7",
    "1e22", "1e23", "6.02214076E+23", "-9.97231e-09", "0.1e1",
];

pub fn number(r: &mut Rng, d: &Dict) -> String {
    match r.below(100) {
        0..=34 => format!("{}.{}", r.below(200) as i64 - 100, r.below(1000000)),
        35..=44 => format!("{}", r.below(2001) as i64 - 1000),
        45..=54 => r.pick(&HARD_NUMBERS).to_string(),
        55..=69 => {
            // A double chosen by its bits, printed so that it reads back exactly.
            loop {
                let x = f64::from_bits(r.next());
                if x.is_finite() {
                    return match r.below(3) {
                        0 => format!("{:?}", x),
                        1 => format!("{:e}", x),
                        _ => format!("{:E}", x),
                    };
                }
            }
        }
        // Every spelling the grammar of numbers has, with runs of zeros.
        70..=74 => {
            let run = |r: &mut Rng, least: usize| -> String {
                let mut s = String::new();
                let (zeros, many) = (if r.pct(20) { 40 } else { 4 }, if r.pct(15) { 25 } else { 6 });
                if r.pct(30) {
                    s.push_str(&"0".repeat(r.range(1, zeros)));
                }
                if r.pct(70) || s.len() < least {
                    for _ in 0..r.range(1, many) {
                        s.push((b'0' + r.below(10) as u8) as char);
                    }
                }
                if r.pct(25) {
                    s.push_str(&"0".repeat(r.range(1, zeros)));
                }
                s
            };
            let whole = run(r, 0);
            let part = if r.pct(60) { Some(run(r, usize::from(whole.is_empty()))) } else { None };
            let whole = if whole.is_empty() && part.is_none() { "0".to_string() } else { whole };
            let mut s = r.pick(&["", "", "", "-", "-", "+"]).to_string() + &whole;
            if let Some(p) = part {
                s = s + "." + &p;
            }
            if r.pct(40) {
                s.push(*r.pick(&['e', 'E']));
                s.push_str(*r.pick(&["", "", "+", "-"]));
                s.push_str(&"0".repeat(if r.pct(30) { r.range(1, 20) } else { 0 }));
                let e = if r.pct(80) { r.below(40) } else { r.below(400) };
                s += &e.to_string();
            }
            s
        }
        75..=84 => {
            // Random decimal digits of any length, optional exponent.
            let mut s = String::new();
            if r.pct(40) {
                s.push('-');
            }
            let hi = if r.pct(10) { 60 } else { 12 };
            let a = r.range(1, hi);
            for _ in 0..a {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            if r.pct(70) {
                s.push('.');
                let hi = if r.pct(10) { 60 } else { 12 };
            let z = r.range(1, hi);
                for _ in 0..z {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
            if r.pct(30) {
                s.push(*r.pick(&['e', 'E']));
                s.push_str(*r.pick(&["", "+", "-"]));
                s += &r.below(40).to_string();
            }
            s
        }
        85..=89 => {
            // f32-sensitive values
            let x = f32::from_bits(r.next() as u32);
            if x.is_finite() {
                format!("{:?}", x as f64 * 1.000000001)
            } else {
                "1.5".into()
            }
        }
        // between two doubles, at or next to the middle
        90 | 91 if r.pct(50) => {
            let n = (r.next() | 1 << 53) >> r.below(11);
            format!("{}{n}{}", r.pick(&["", "-", "+"]), r.pick(&["", ".0", ".", ".000000000000000000000000001", "e0", "e-5", "e12"]))
        }
        92 if r.pct(30) => r
            .pick(&["inf", "-inf", "nan", "NaN", "infinity", "-Infinity", "INF", "+inf", "1e309", "-1e400", "1e99999999999", "179769313486231580793728971405301e277", "1e-400", "-1e-99999", "+0.5", "+.5e+1", "+1"])
            .to_string(),
        // a few steps away from a value a special case may be made for
        93 => {
            let base = *r.pick(&[0.0f64, 1.0, -1.0, 2.0, 0.5, 10.0, 100.0, 0.1, 0.001, 1e-6, 1e-8, 16777216.0, 4294967296.0, 9007199254740992.0, 1e15, 1e16, 255.0, 0.3]);
            let x = match r.below(3) {
                0 => f64::from_bits((base.to_bits() as i64 + r.below(9) as i64 - 4).max(0) as u64),
                1 => base + *r.pick(&[1e-16, -1e-16, 2e-16, 1e-15, 1e-13, -1e-12, 1e-10, -1e-9, 1e-8, 1e-7, -1e-7, 1e-6, 1e-5]),
                _ => -base,
            };
            if x.is_finite() { format!("{x:?}") } else { "1".into() }
        }
        90..=92 => {
            let k = r.range(15, 25);
            let s: String = (0..k).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            format!("0.{}", s)
        }
        94..=96 if !d.floats.is_empty() => r.pick(&d.floats).clone(),
        _ => format!("{}e{}", r.range(1, 9999), r.below(600) as i64 - 300),
    }
}

/// A coordinate carrying a unique serial number, so that data identifies its
/// statement.
fn serial(n: usize, tag: &str) -> String {
    format!("{}{}", n, tag)
}

const KEYWORD_NAMES: [&str; 34] = [
    "v", "vt", "vn", "vp", "g", "s", "o", "p", "l", "f", "usemtl", "mtllib", "newmtl", "Ka", "d", "illum", "map_Kd",
    "bump", "off", "default", "0", "1", "-1", "1/2/3", "1//2", "null", "none", "None", "nan", "inf", "end", "1.5",
    "Default", "\"\"",
];

fn unicode_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(10) {
            0 => char::from_u32(0xA0 + r.below(0x60) as u32),
            1 => char::from_u32(0x80 + r.below(0x780) as u32),
            2 => char::from_u32(0x400 + r.below(0x100) as u32),
            3 => char::from_u32(0x4E00 + r.below(0x5000) as u32),
            4 => char::from_u32(0x1F300 + r.below(0x400) as u32),
            5 => Some(*r.pick(&[
                '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{3000}',
                '\u{feff}', '\u{200b}', '\u{301}', '\u{ad}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{80}', '\u{7ff}',
                '\u{800}', '\u{10000}', '\u{d7ff}', '\u{e000}', '\u{220}', '\u{9}', '\u{ff03}', '\u{ff0f}', '\u{660}',
                '\u{130}', '\u{131}', '\u{df}', '\u{3a3}', '\u{212a}',
            ])),
            6 => char::from_u32(r.below(0x800) as u32),
            7 => char::from_u32(r.below(0x110000) as u32),
            8 => Some(*r.pick(&['\u{b}', '\u{c}', '\u{0}', '\u{1}', '\u{1b}', '\u{1c}', '\u{1f}', '\u{7f}'])),
            _ => char::from_u32(0x21 + r.below(0x5e) as u32),
        };
        if let Some(c) = c {
            if is_name_char(c) {
                return c;
            }
        }
    }
}

pub fn is_name_char(c: char) -> bool {
    !(c == ' ' || c == '\t' || c == '\\' || c == '\n' || c == '\r' || c == '#')
}

/// What a reader of names may think it has to treat in some way.
const FRAGMENTS: [&str; 84] = [
    "a", "B", "x1", "é", "e\u{301}", "%20", "%", "&amp;", "&", "${HOME}", "$A", "~", "/", "//", "/./", "/../", "..", ".", "./", "../",
    ":", ";", ",", "\"", "'", "`", "(", ")", "[", "]", "{", "}", "<", ">", "|", "*", "?", "!", "@", "=", "+", "-", "--", "_", "__", "^",
    "\u{200d}", "\u{feff}", "\u{ad}", "\u{fe0f}", "\u{fb01}", "\u{ff21}", "\u{130}", "\u{df}", "\u{3a3}", "\u{1100}\u{1161}",
    "\u{7f}", "\u{0}", "\u{1b}[0m", "\u{85}", "\u{2028}", "\u{a0}", "\u{3000}", "\u{b}", "\u{c}", "\u{1a}", ".mtl", ".MTL", ".png",
    ".PNG", "0", "00", "1", "007", "1e5", "true", "nil", "NULL", "http://", "file:///", "C:", ".001", ":mesh", "default",
];

pub fn name(r: &mut Rng, d: &Dict) -> String {
    match r.below(100) {
        0..=29 => format!("{}{}", r.pick(&["obj", "Group", "mat_", "Mesh.", "a", "x"]), r.below(30)),
        30..=39 => format!(
            "{}{}.{}",
            r.pick(&["tex/", "./", "../maps/", "C:/a/", "", "é/"]),
            r.pick(&["diffuse", "Normal-01", "wood_v2", "日本", "a.b"]),
            r.pick(&["png", "jpg", "mtl", "TGA", "tar.gz"])
        ),
        40..=54 => r.pick(&KEYWORD_NAMES).to_string(),
        55..=74 => {
            let hi = if r.pct(15) { 80 } else { 8 };
            let n = r.range(1, hi);
            (0..n).map(|_| unicode_char(r)).collect()
        }
        75..=84 => {
            let n = r.range(1, 12);
            (0..n)
                .map(|_| loop {
                    let c = (0x21 + r.below(0x5e) as u8) as char;
                    if is_name_char(c) {
                        break c;
                    }
                })
                .collect()
        }
        85..=89 => {
            let n = size(r, d, 3000);
            let c = unicode_char(r);
            let mut s: String = std::iter::repeat('n').take(n).collect();
            if r.pct(50) {
                s.push(c);
            }
            if r.pct(30) {
                s.insert(0, c);
            }
            s
        }
        90..=94 if !d.words.is_empty() => {
            let w = d.word(r).unwrap_or_default();
            let w: String = w.chars().filter(|&c| is_name_char(c)).collect();
            if w.is_empty() {
                return "w".into();
            }
            if r.pct(60) {
                return w;
            }
            // Glued to something longer.
            let n = if r.pct(70) { r.range(1, 12) } else { size(r, d, 300) };
            let pad: String = (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '7', '_', '.', 'é'])).collect();
            match r.below(3) {
                0 => pad + &w,
                1 => w + &pad,
                _ => format!("{pad}{w}{}", r.pick(&["x", "1", ".mtl", "é"])),
            }
        }
        95 | 96 => {
            let n = r.range(1, 5);
            (0..n).map(|_| *r.pick(&FRAGMENTS)).collect()
        }
        _ => {
            // Same-prefix names and case variants
            let base = *r.pick(&["default", "group", "Material", "off", "newmtl"]);
            match r.below(4) {
                0 => format!("{}_", base),
                1 => base.to_uppercase(),
                2 => format!(".{}", base),
                _ => base[..base.len() - 1].to_string(),
            }
        }
    }
}

/// Different names that a hash, a prefix or a loose comparison takes for one.
const SAME_HASH: [&[&str]; 12] = [
    &["costarring", "liquid"], &["declinate", "macallums"], &["altarage", "zinke"], &["Aa", "BB"], &["AaAa", "BBBB", "AaBB", "BBAa"],
    &["hetairas", "mentioner"], &["heliotropes", "neurospora"], &["plumless", "buckeroo"], &["ad", "bc", "da", "cb"],
    &["\u{e9}", "e\u{301}", "e"], &["\u{212b}", "\u{c5}", "A\u{30a}"], &["0", "00", "+0", "-0", "0.0"],
];

pub fn lookalikes(r: &mut Rng, d: &Dict) -> Vec<String> {
    if r.pct(25) {
        return r.pick(&SAME_HASH).iter().map(|s| s.to_string()).collect();
    }
    let base = loop {
        let n = name(r, d);
        if n.chars().count() < 60 {
            break n;
        }
    };
    let c: Vec<char> = base.chars().collect();
    let mut out = vec![base.clone()];
    for _ in 0..r.range(1, 4) {
        let mut v = c.clone();
        let i = r.below(v.len());
        let v: String = match r.below(12) {
            0 => base.to_uppercase(),
            1 => base.to_lowercase(),
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
                v.into_iter().collect()
            }
            3 => {
                v.insert(i, c[i]);
                v.into_iter().collect()
            }
            4 if v.len() > 1 => {
                v.remove(i);
                v.into_iter().collect()
            }
            5 => base.clone() + *r.pick(&["_", ".", "0", "1", ".001", "é", "/", "-"]),
            6 => r.pick(&["_", ".", "0", "./", "-", "é"]).to_string() + &base,
            7 => {
                v[i] = *r.pick(&['a', 'b', '0', '_', 'é', 'Z']);
                v.into_iter().collect()
            }
            8 => base.clone() + &base,
            // equal sums of characters, also when weighted by position
            9 | 10 => {
                let k = if r.pct(50) { 2 } else { 3 };
                if let Some(j) = (i..v.len()).chain(0..i).find(|&j| v.len() >= j + k && v[j..j + k].iter().all(|c| c.is_ascii_alphanumeric())) {
                    let add: &[i8] = if k == 2 { &[1, -1] } else { &[1, -2, 1] };
                    for (t, x) in add.iter().enumerate() {
                        v[j + t] = (v[j + t] as u8 as i8 + x) as u8 as char;
                    }
                }
                v.into_iter().collect()
            }
            _ => v.into_iter().rev().collect(),
        };
        let v: String = v.chars().filter(|&c| is_name_char(c)).collect();
        if !v.is_empty() && !out.contains(&v) {
            out.push(v);
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub objects: (usize, usize),
    pub stmts: (usize, usize),
    /// weights: v vt vn g s usemtl p l f
    pub w: [usize; 9],
    pub neg_pct: usize,
    pub only_relative: bool,
    pub hard_numbers: bool,
    /// percentage of fancy names
    pub fancy_names: usize,
    pub max_arity: usize,
    pub lead_anon_pct: usize,
    pub libs_pct: usize,
}

impl Cfg {
    pub fn base() -> Cfg {
        Cfg {
            objects: (1, 4),
            stmts: (1, 25),
            w: [24, 8, 8, 8, 8, 8, 8, 8, 14],
            neg_pct: 30,
            only_relative: false,
            hard_numbers: true,
            fancy_names: 40,
            max_arity: 80,
            lead_anon_pct: 50,
            libs_pct: 30,
        }
    }
}

/// Generator state of an OBJ document.
pub struct ObjGen<'a> {
    pub r: &'a mut Rng,
    pub d: &'a Dict,
    pub cfg: Cfg,
    pub doc: Doc,
    pub counts: [usize; 3],
    pub base: [usize; 3],
    /// Where not empty, names come from here.
    pub pool: Vec<String>,
}

fn w<S: Into<String>>(kw: &str, rest: impl IntoIterator<Item = S>) -> Vec<String> {
    std::iter::once(kw.to_string()).chain(rest.into_iter().map(Into::into)).collect()
}

impl<'a> ObjGen<'a> {
    pub fn new(r: &'a mut Rng, d: &'a Dict, cfg: Cfg) -> ObjGen<'a> {
        ObjGen { r, d, cfg, doc: vec![], counts: [0; 3], base: [0; 3], pool: vec![] }
    }
    fn num(&mut self, n: usize, tag: &str) -> String {
        if self.cfg.hard_numbers && self.r.pct(60) {
            number(self.r, self.d)
        } else {
            serial(n, tag)
        }
    }
    fn nm(&mut self) -> String {
        if !self.pool.is_empty() {
            return self.r.pick(&self.pool).clone();
        }
        if self.r.pct(self.cfg.fancy_names) {
            name(self.r, self.d)
        } else {
            format!("n{}", self.r.below(6))
        }
    }
    pub fn vertex(&mut self, k: usize) {
        let n = self.counts[k];
        let (kw, lo, hi, tag) = match k {
            0 => ("v", 3, 4, ".25"),
            1 => ("vt", 1, 3, ".5"),
            _ => ("vn", 3, 3, ".75"),
        };
        let m = self.r.range(lo, hi);
        if self.r.pct(3) {
            // Exactly the data of an earlier statement.
            let from = self.r.below(self.doc.len().max(1));
            if let Some(st) = self.doc[from.min(self.doc.len())..].iter().find(|st| st[0] == kw).cloned() {
                self.doc.push(st);
                self.counts[k] += 1;
                return;
            }
        }
        // The first coordinate is always serial when numbers are not hard, and
        // usually otherwise, so that data identifies the statement.
        let mut ops = vec![if self.cfg.hard_numbers && self.r.pct(30) {
            number(self.r, self.d)
        } else {
            serial(n, tag)
        }];
        for _ in 1..m {
            let s = self.num(n, tag);
            ops.push(s);
        }
        self.doc.push(w(kw, ops));
        self.counts[k] += 1;
    }
    pub fn one(&mut self, k: usize) -> String {
        let (lo, hi) = (self.base[k], self.counts[k]);
        let g = match self.r.below(10) {
            0 => lo,
            1 => hi - 1,
            _ => self.r.range(lo, hi - 1),
        };
        if self.cfg.only_relative || self.r.pct(self.cfg.neg_pct) {
            format!("-{}{}", if self.r.pct(2) { "0" } else { "" }, hi - g)
        } else if self.r.pct(2) {
            format!("{}{}", self.r.pick(&["0", "+", "00000000", "+0", "000000000000000000000000"]), g + 1)
        } else {
            format!("{}", g + 1)
        }
    }
    pub fn index(&mut self, form: u8) -> String {
        let v = self.one(0);
        match form {
            0 => v,
            1 => {
                let t = self.one(1);
                format!("{}/{}", v, t)
            }
            2 => {
                let n = self.one(2);
                format!("{}//{}", v, n)
            }
            _ => {
                let t = self.one(1);
                let n = self.one(2);
                format!("{}/{}/{}", v, t, n)
            }
        }
    }
    pub fn element(&mut self, kw: &str) {
        let forms: &[u8] = match kw {
            "p" => &[0],
            "l" => &[0, 1, 0, 1, 2, 3],
            _ => &[0, 1, 2, 3],
        };
        let form = *self.r.pick(forms);
        if self.counts[0] == self.base[0] {
            let k = self.r.range(1, 4);
            (0..k).for_each(|_| self.vertex(0));
        }
        if form & 1 != 0 && self.counts[1] == self.base[1] {
            let k = self.r.range(1, 3);
            (0..k).for_each(|_| self.vertex(1));
        }
        if form & 2 != 0 && self.counts[2] == self.base[2] {
            let k = self.r.range(1, 3);
            (0..k).for_each(|_| self.vertex(2));
        }
        let lo = match kw {
            "p" => 1,
            "l" => 2,
            _ => 3,
        };
        let n = arity(self.r, self.d, lo, self.cfg.max_arity);
        let mut ops: Vec<String> = (0..n).map(|_| self.index(form)).collect();
        if self.r.pct(5) {
            // degenerate: repeated indices
            let a = ops[0].clone();
            for o in ops.iter_mut() {
                if self.r.pct(50) {
                    *o = a.clone();
                }
            }
        }
        self.doc.push(w(kw, ops));
    }
    pub fn statement(&mut self) {
        let total: usize = self.cfg.w.iter().sum();
        let mut x = self.r.below(total.max(1));
        let mut k = 0;
        while k < 8 && x >= self.cfg.w[k] {
            x -= self.cfg.w[k];
            k += 1;
        }
        match k {
            0..=2 => self.vertex(k),
            3 => {
                let n = match self.r.below(20) {
                    0 => 0,
                    1..=12 => 1,
                    13..=17 => self.r.range(2, 4),
                    _ => arity(self.r, self.d, 1, self.cfg.max_arity),
                };
                let names: Vec<String> = (0..n).map(|_| self.nm()).collect();
                self.doc.push(w("g", names));
            }
            4 => {
                let s = match self.r.below(10) {
                    0 | 1 => "off".to_string(),
                    2 => "0".to_string(),
                    3 => self
                        .r
                        .pick(&["18446744073709551615", "9223372036854775808", "4294967296", "007", "65536", "256", "00", "32", "33"])
                        .to_string(),
                    5 => match self.r.below(3) {
                        0 => (self.r.next() >> self.r.below(64)).to_string(),
                        1 => ((1u64 << self.r.below(64)).wrapping_add(self.r.below(5) as u64).wrapping_sub(2)).to_string(),
                        _ => (10u64.pow(self.r.below(20) as u32).wrapping_add(self.r.below(5) as u64).saturating_sub(2)).to_string(),
                    },
                    4 => self.d.size(self.r, usize::MAX).unwrap_or(1).to_string(),
                    _ => self.r.below(6).to_string(),
                };
                self.doc.push(w("s", [s]));
            }
            5 => {
                let n = self.nm();
                self.doc.push(w("usemtl", [n]));
            }
            6 => self.element("p"),
            7 => self.element("l"),
            _ => self.element("f"),
        }
    }
    /// `n` statements, operands or objects of one kind in a row.
    pub fn bulk(&mut self, kind: usize, n: usize) {
        let tags = [".25", ".5", ".75"];
        match kind {
            0..=2 => {
                for _ in 0..n {
                    let a = serial(self.counts[kind], tags[kind]);
                    self.doc.push(if kind == 1 { w("vt", [a]) } else { w(["v", "", "vn"][kind], [a, "0.5".into(), "-2".into()]) });
                    self.counts[kind] += 1;
                }
            }
            3..=5 => {
                for i in 0..n {
                    self.doc.push(match kind {
                        3 => w("g", [format!("g{}", i % 3000)]),
                        4 => w("s", [format!("{}", (i * 7) % 5000)]),
                        _ => w("usemtl", [format!("m{}", i % 2500)]),
                    });
                    if self.r.pct(30) && self.counts[0] > self.base[0] {
                        let p = self.one(0);
                        self.doc.push(w("p", [p]));
                    }
                }
            }
            6..=9 => {
                // elements of one kind, or one element with many indices
                let kw = ["p", "l", "f"][self.r.below(3)];
                let lo = match kw {
                    "p" => 1,
                    "l" => 2,
                    _ => 3,
                };
                let arity = self.cfg.max_arity;
                self.cfg.max_arity = 3;
                self.element(kw);
                self.cfg.max_arity = arity;
                let last = self.doc.pop().unwrap();
                let form = if !last[1].contains('/') { 0 } else if last[1].contains("//") { 2 } else { 1 + 2 * (last[1].matches('/').count() as u8 - 1) };
                if kind < 8 {
                    for _ in 0..n {
                        let ops: Vec<String> = (0..lo).map(|_| self.index(form)).collect();
                        self.doc.push(w(kw, ops));
                    }
                } else {
                    let ops: Vec<String> = (0..n.max(lo)).map(|_| self.index(form)).collect();
                    self.doc.push(w(kw, ops));
                }
            }
            10 => {
                for i in 0..n {
                    self.doc.push(w("o", [format!("o{}", i % 4000)]));
                    self.base = self.counts;
                    for k in 0..3 {
                        if self.r.pct([40, 10, 10][k]) {
                            self.vertex(k);
                        }
                    }
                }
            }
            _ => {
                let names: Vec<String> = (0..n).map(|i| format!("g{}", i % 3000)).collect();
                self.doc.push(w("g", names));
            }
        }
    }
    /// A random document with one thing in it very many times.
    pub fn bulk_document(mut self, kind: usize, n: usize) -> Doc {
        let before = self.r.below(12);
        let after = self.r.range(1, 10);
        if self.r.pct(50) {
            for _ in 0..self.r.below(6) {
                self.statement();
            }
            self.start_object();
        }
        for _ in 0..before {
            self.statement();
        }
        self.bulk(kind, n);
        for i in 0..after {
            if i > 1 && self.r.pct(12) {
                self.start_object();
            }
            self.statement();
        }
        self.doc
    }
    pub fn start_object(&mut self) {
        let n = self.nm();
        self.doc.push(w("o", [n]));
        self.base = self.counts;
    }
    /// A whole valid document.
    pub fn document(mut self) -> Doc {
        if self.r.pct(15) {
            self.pool = lookalikes(self.r, self.d);
        }
        if self.r.pct(self.cfg.libs_pct) {
            let k = self.r.range(1, 3);
            for _ in 0..k {
                let n = *self.r.pick(&[0usize, 1, 1, 1, 2, 3, 9]);
                let names: Vec<String> = (0..n).map(|_| self.nm()).collect();
                self.doc.push(w("mtllib", names));
            }
        }
        let n = self.r.range(self.cfg.objects.0, self.cfg.objects.1);
        for i in 0..n {
            if i > 0 || !self.r.pct(self.cfg.lead_anon_pct) {
                self.start_object();
            }
            let m = match self.r.below(20) {
                0 => 0,
                1 => size(self.r, self.d, self.cfg.stmts.1 * 3),
                _ => self.r.range(self.cfg.stmts.0, self.cfg.stmts.1),
            };
            if self.r.pct(30) {
                // Up-front vertices, as exporters write them.
                for k in 0..3 {
                    let c = size(self.r, self.d, 40);
                    (0..c).for_each(|_| self.vertex(k));
                }
            }
            for _ in 0..m {
                self.statement();
            }
        }
        self.doc
    }
}

pub fn obj_doc(r: &mut Rng, d: &Dict, mut cfg: Cfg) -> Doc {
    if r.pct(20) {
        // Swarm: some statement kinds left out, some frequent.
        for x in cfg.w.iter_mut() {
            *x *= *r.pick(&[0, 0, 1, 1, 3, 10]);
        }
        cfg.w[r.below(9)] += 1;
    }
    ObjGen::new(r, d, cfg).document()
}

pub fn mtl_doc(r: &mut Rng, d: &Dict) -> Doc {
    let mut doc = vec![];
    let n = match r.below(10) {
        0 => 0,
        1 => size(r, d, 60),
        _ => r.range(1, 5),
    };
    let pool = if r.pct(15) { lookalikes(r, d) } else { vec![] };
    let everyday = r.pct(15);
    let name = |r: &mut Rng, d: &Dict| if pool.is_empty() { name(r, d) } else { r.pick(&pool).clone() };
    let number = |r: &mut Rng, d: &Dict| {
        if everyday {
            r.pick(&["0", "1", "0.5", "0.8", "1.0", "0.0", "2", "10", "100", "1000", "-1"]).to_string()
        } else {
            number(r, d)
        }
    };
    for _ in 0..n {
        let nm = name(r, d);
        doc.push(w("newmtl", [nm]));
        // Either a permutation of a random subset, or a free sequence.
        let kws = &model::MTL_KEYWORDS[1..];
        let mut seq: Vec<&str> = if r.pct(60) {
            let p = r.range(10, 100);
            let mut s: Vec<&str> = kws.iter().copied().filter(|_| r.pct(p)).collect();
            for i in (1..s.len()).rev() {
                s.swap(i, r.below(i + 1));
            }
            s
        } else {
            let m = size(r, d, 60);
            (0..m).map(|_| *r.pick(kws)).collect()
        };
        if r.pct(10) {
            seq.clear();
        }
        for kw in seq {
            let again = r.pct(12);
            let same = |doc: &Doc, c: bool, r: &mut Rng| {
                // The operands of an earlier statement of the same shape.
                let from = r.below(doc.len());
                doc[from..].iter().chain(doc[..from].iter()).find(|st| if c { st.len() == 4 } else { st.len() == 2 && st[0] != "illum" && matches!(model::num(&st[1]), model::Num::Good(_)) }).map(|st| st[1..].to_vec())
            };
            let ops: Vec<String> = match kw {
                "Ka" | "Kd" | "Ks" | "Ke" if again => same(&doc, true, r).unwrap_or_else(|| vec!["0.5".into(); 3]),
                "d" | "Ns" | "Ni" if again => same(&doc, false, r).unwrap_or_else(|| vec!["0.5".into()]),
                "Ka" | "Kd" | "Ks" | "Ke" => (0..3).map(|_| number(r, d)).collect(),
                "d" | "Ns" | "Ni" => vec![number(r, d)],
                "illum" => vec![r.pick(&["0", "1", "2", "2", "01", "002"]).to_string()],
                _ => vec![name(r, d)],
            };
            doc.push(w(kw, ops));
        }
    }
    doc
}

pub fn plain(doc: &Doc) -> String {
    let mut s = String::new();
    for l in doc {
        s.push_str(&l.join(" "));
        s.push('\n');
    }
    s
}

const COMMENT_BITS: [&str; 20] = [
    "", "comment", " v 1 2 3", "#", "##", " o x", " f 1 2 3", "é", " \u{a0}x", "\u{2028}", "日本", " newmtl m", " \\", "\\",
    "\t", "\"", "'", " Kd 0 0 0", "\u{85}", "/",
];

fn comment(r: &mut Rng) -> String {
    let mut s = String::from("#");
    for _ in 0..r.range(0, 4) {
        s.push_str(*r.pick(&COMMENT_BITS));
    }
    s
}

fn blanks(r: &mut Rng, lo: usize) -> String {
    let n = match r.below(10) {
        0..=6 => lo,
        7 | 8 => lo + r.below(4),
        _ => lo + r.below(20),
    };
    (0..n).map(|_| *r.pick(&[' ', ' ', ' ', '\t', '\\'])).collect()
}

/// Render lines of words with lexical noise. Returns the text and, for every
/// input line, the physical line it landed on.
pub fn noisy(r: &mut Rng, lines: &[Vec<&str>], last_ended: bool, level: usize) -> (String, Vec<usize>) {
    let style = r.below(5);
    let mut s = String::new();
    let mut map = Vec::with_capacity(lines.len());
    let mut no = 1;
    let mut last_cr = false;
    let mut end = |r: &mut Rng, s: &mut String, no: &mut usize, empty: bool| {
        let e = match style {
            0 | 1 => "\n",
            2 => "\r\n",
            3 => "\r",
            _ => *r.pick(&["\n", "\r\n", "\r"]),
        };
        // CR followed by an empty line ending in LF would be a single CRLF.
        if empty && last_cr && e == "\n" {
            s.push(' ');
        }
        s.push_str(e);
        last_cr = e == "\r";
        *no += 1;
    };
    for (i, l) in lines.iter().enumerate() {
        while r.pct(level) {
            // an extra blank or comment line
            let mut t = if r.pct(40) { blanks(r, 0) } else { String::new() };
            if r.pct(50) {
                t.push_str(&comment(r));
            }
            s.push_str(&t);
            end(r, &mut s, &mut no, t.is_empty());
        }
        map.push(no);
        let start = s.len();
        if r.pct(level) {
            s.push_str(&blanks(r, 0));
        }
        for (k, word) in l.iter().enumerate() {
            if k > 0 {
                s.push_str(&if r.pct(level) { blanks(r, 1) } else { " ".into() });
            }
            s.push_str(word);
        }
        if r.pct(level) {
            s.push_str(&blanks(r, 0));
        }
        if r.pct(level) {
            s.push_str(&comment(r));
        }
        if i + 1 < lines.len() || last_ended {
            let empty = s.len() == start;
            end(r, &mut s, &mut no, empty);
        }
    }
    (s, map)
}

pub fn noisy_doc(r: &mut Rng, doc: &Doc, level: usize) -> String {
    let l: Vec<Vec<&str>> = doc.iter().map(|l| l.iter().map(|s| s.as_str()).collect()).collect();
    let ended = doc.last().map_or(true, |l| l[0] == "o") || r.pct(80);
    noisy(r, &l, ended, level).0
}

/// Render with a randomly chosen amount of noise (often none).
pub fn render(r: &mut Rng, doc: &Doc) -> String {
    match r.below(4) {
        0 | 1 => plain(doc),
        2 => noisy_doc(r, doc, 8),
        _ => noisy_doc(r, doc, 35),
    }
}

const BAD_WORDS: [&str; 66] = [
    "x", "foo", "-", "+", ".", "/", "//", "///", "1/", "1//", "/1", "//1", "1/1/1/1", "1/x", "1//x", "x/1", "1.0", "1e3",
    "0x1", "١", "1,2", "0", "-0", "00", "1", "-1", "999999", "-999999", "9223372036854775807", "9223372036854775808",
    "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
    "99999999999999999999999999", "-99999999999999999999999999", "nan", "inf", "-inf", "infinity", "1e", "e5", "1e400",
    "on", "Off", "OFF", "v", "vt", "vn", "vp", "f", "l", "p", "o", "g", "s", "usemtl", "mtllib", "newmtl", "Ka",
    "illum", "map_Kd", "é", "\u{a0}", "curv", "--1",
];

pub const FREE_FORM: [&str; 40] = [
    "vp", "cstype", "deg", "bmat", "step", "curv", "curv2", "surf", "parm", "trim", "hole", "scrv", "sp", "end", "con",
    "mg", "bevel", "c_interp", "d_interp", "lod", "maplib", "usemap", "shadow_obj", "trace_obj", "ctech", "stech", "call",
    "csh", "V", "F", "vv", "fo", "off", "O", "G", "S", "P", "L", "Usemtl", "mtlLib",
];

pub const MTL_UNKNOWN: [&str; 26] = [
    "Tr", "sharpness", "map_bump", "map_Disp", "refl", "Pr", "Pm", "map_Tr", "norm", "aniso", "ka", "KD", "Illum", "D",
    "newMtl", "map_ka", "map_KD", "Bump", "map_Decal", "map_D", "v", "f", "o", "usemtl", "mtllib", "halo",
];

/// Statements of the format and of its dialects which the library does not take.
const FOREIGN: [&str; 66] = [
    "lod 0", "lod 1", "lod 100", "bevel off", "bevel on", "c_interp off", "c_interp on", "d_interp off", "d_interp on",
    "shadow_obj a.obj", "trace_obj a.obj", "ctech cparm 1", "stech cparma 1 1", "cstype bezier", "cstype rat bspline", "deg 3",
    "deg 3 3", "bmat u 1 0 0 1", "step 1", "curv 0 1 1 2 3", "curv2 1 2", "surf 0 1 0 1 1 2 3", "parm u 0 1", "trim 0 1 1",
    "hole 0 1 1", "scrv 0 1 1", "sp 1", "end", "con 1 0 1 1 2 0 1 1", "mg off", "mg 0", "mg 1 0.5", "maplib a.map", "usemap off",
    "usemap a", "call a.obj", "csh ls", "vp 0", "vp 0.5", "vp 0.5 0.5", "vp 0.5 0.5 1", "vn 0 0", "vn 0", "fo 1 2 3", "bsp 1",
    "bzp 1", "cdc 1", "cdp 1", "res 1 1", "mtllib", "group a", "smooth 1", "smooth off", "material a", "object a", "vertex 1 2 3",
    "vc 1 1 1", "color 1 1 1", "e 1 2", "newmtl a", "Kd 1 1 1", "usemtl", "o", "s", "s on", "v 1 1 1 1 1 1",
];
const MTL_FOREIGN: [&str; 62] = [
    "Tr 0", "Tr 1", "Tr 0.5", "Tf 1 1 1", "Tf spectral a.rfl", "Tf xyz 1 1 1", "Tf 1", "Ka spectral a.rfl", "Ka spectral a.rfl 1",
    "Kd xyz 1 1 1", "Kd xyz 1", "Kd 1", "Ks 0", "Kd 1 1", "Ke 0", "Kd 1 1 1 1", "d -halo 0.5", "d -halo 1", "d 1 1", "sharpness 60",
    "map_Kd -s 1 1 1 a.png", "map_Kd -blendu on a.png", "map_Kd -clamp on a.png", "map_Kd -o 0 0 0 a.png", "map_bump a.png",
    "bump -bm 1 a.png", "map_Bump -bm 1 a.png", "map_Bump a b", "refl -type sphere a.png", "refl a.png", "map_refl a.png",
    "map_aat on", "map_aat off", "Pr 0.5", "Pm 0", "Ps 0", "Pc 0", "Pcr 0", "aniso 0", "anisor 0", "norm a.png", "map_Pr a.png",
    "map_Ni a.png", "map_Tr a.png", "map_opacity a.png", "illum 3", "illum 9", "illum 10", "illum", "Ns", "Ns 1 1", "Ni 1 1",
    "newmtl", "newmtl a b", "Km 0", "map_Km a.png", "shader a", "library a.mtl", "end", "v 1 1 1", "usemtl a", "g a",
];

/// One of those, perhaps with another operand.
pub fn foreign(r: &mut Rng, d: &Dict, mtl: bool) -> Vec<String> {
    let t: &str = if mtl { r.pick(&MTL_FOREIGN) } else { r.pick(&FOREIGN) };
    let mut l: Vec<String> = t.split(' ').map(String::from).collect();
    if r.pct(30) && l.len() > 1 {
        let i = r.range(1, l.len() - 1);
        l[i] = match r.below(5) {
            0 => "0".into(),
            1 => r.range(0, 9).to_string(),
            2 => r.pick(&["off", "on", "none", "1.0", "0.0", "null", "default"]).to_string(),
            3 => number(r, d),
            _ => bad_word(r, d),
        };
    }
    if r.pct(10) {
        l.push(if r.pct(50) { r.range(0, 4).to_string() } else { bad_word(r, d) });
    }
    l
}

/// A random line that is malformed in some way (not in every context).
pub fn bad_word(r: &mut Rng, d: &Dict) -> String {
    match r.below(10) {
        0 if !d.words.is_empty() => d.word(r).unwrap_or_default(),
        1 => name(r, d),
        2 => number(r, d),
        3 => format!("{}", r.next() as i64),
        4 => d.size(r, usize::MAX).unwrap_or(0).to_string(),
        _ => r.pick(&BAD_WORDS).to_string(),
    }
}

/// Word- and line-level mutations of a document.
pub fn mutate(r: &mut Rng, d: &Dict, doc: &mut Doc, other: &Doc) {
    let k = match r.below(4) {
        0 => r.range(1, 6),
        _ => 1,
    };
    for _ in 0..k {
        if doc.is_empty() {
            doc.push(vec![bad_word(r, d)]);
            continue;
        }
        let i = r.below(doc.len());
        match r.below(16) {
            0 => {
                doc.remove(i);
            }
            1 => {
                let l = doc[i].clone();
                let j = r.below(doc.len() + 1);
                doc.insert(j, l);
            }
            2 => {
                let j = r.below(doc.len());
                doc.swap(i, j);
            }
            3 if !other.is_empty() => {
                let l = r.pick(other).clone();
                doc.insert(i, l);
            }
            4 if doc[i].len() > 1 => {
                let j = r.range(1, doc[i].len() - 1);
                let tail = doc[i].split_off(j);
                doc.insert(i + 1, tail);
            }
            5 if i + 1 < doc.len() => {
                let l = doc.remove(i + 1);
                doc[i].extend(l);
            }
            6 => {
                let n = r.range(0, 4);
                let kw = match r.below(3) {
                    0 => r.pick(&FREE_FORM).to_string(),
                    1 => r.pick(&MTL_UNKNOWN).to_string(),
                    _ => bad_word(r, d),
                };
                let mut l = vec![kw];
                (0..n).for_each(|_| l.push(bad_word(r, d)));
                doc.insert(i, l);
            }
            7 | 8 => {
                let j = r.below(doc[i].len());
                doc[i][j] = bad_word(r, d);
            }
            9 => {
                let j = r.below(doc[i].len());
                doc[i].remove(j);
                if doc[i].is_empty() {
                    doc.remove(i);
                }
            }
            10 => {
                doc[i].pop();
                if doc[i].is_empty() {
                    doc.remove(i);
                }
            }
            11 => {
                let j = r.below(doc[i].len() + 1);
                let b = bad_word(r, d);
                doc[i].insert(j, b);
            }
            12 => {
                let b = bad_word(r, d);
                doc[i].push(b);
            }
            13 => {
                // damage one character of one word
                let j = r.below(doc[i].len());
                let mut c: Vec<char> = doc[i][j].chars().collect();
                if !c.is_empty() {
                    let p = r.below(c.len());
                    match r.below(3) {
                        0 => {
                            c.remove(p);
                        }
                        1 => c[p] = unicode_char(r),
                        _ => c.insert(p, unicode_char(r)),
                    }
                }
                doc[i][j] = c.into_iter().collect();
                if doc[i][j].is_empty() {
                    doc[i][j] = "z".into();
                }
            }
            14 => {
                let j = r.below(doc[i].len());
                let a = doc[i].remove(j);
                let t = r.below(doc[i].len() + 1);
                doc[i].insert(t, a);
            }
            _ => {
                let j = r.below(doc[i].len());
                let a = doc[i][j].clone();
                doc[i].insert(j, a);
            }
        }
    }
}

/// Raw text damage: truncation, random characters, cut and paste.
pub fn damage(r: &mut Rng, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..r.range(1, 4) {
        let p = r.below(c.len() + 1);
        match r.below(6) {
            0 => c.truncate(p),
            1 if p < c.len() => {
                c.remove(p);
            }
            2 => c.insert(p, *r.pick(&['\n', '\r', ' ', '\t', '\\', '#', '/', '-', '.', '0', '9', 'e', 'v', 'f', '\0', 'é', '\u{a0}', '\u{feff}'])),
            3 => c.insert(p, char::from_u32(r.below(0x300) as u32).unwrap_or('x')),
            4 if p < c.len() => {
                let q = (p + r.range(1, 20)).min(c.len());
                c.drain(p..q);
            }
            _ => {
                if p < c.len() {
                    let q = (p + r.range(1, 30)).min(c.len());
                    let piece: Vec<char> = c[p..q].to_vec();
                    let t = r.below(c.len() + 1);
                    c.splice(t..t, piece);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// Words in random order with random separators.
pub fn soup(r: &mut Rng, d: &Dict) -> String {
    let n = size(r, d, 300);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(10) {
            0..=3 => s.push_str(*r.pick(&model::OBJ_KEYWORDS)),
            4 | 5 => s.push_str(&r.below(6).to_string()),
            6 => s.push_str(*r.pick(&model::MTL_KEYWORDS)),
            7 => s.push_str(&bad_word(r, d)),
            8 => s.push_str(&number(r, d)),
            _ => s.push_str(&name(r, d)),
        }
        s.push_str(*r.pick(&[" ", " ", " ", "\n", "\n", "\r\n", "\t", "#", "\\\n", ""]));
    }
    s
}

/// Arbitrary characters.
pub fn garbage(r: &mut Rng, d: &Dict) -> String {
    let n = size(r, d, 400);
    let mode = r.below(3);
    (0..n)
        .map(|_| match mode {
            0 => char::from_u32(r.below(128) as u32).unwrap(),
            1 => unicode_char(r),
            _ => *r.pick(&['v', 'f', 'o', 'g', ' ', '\n', '\r', '#', '1', '/', '-', '\\', '0', '2', 'p', 'l', 's', 't', 'n']),
        })
        .collect()
}
