//! The oracle: an independent, line-oriented reading of OBJ and MTL texts.
//!
//! It shares no code and no structure with the library (which works on a token
//! stream): a text is cut into physical lines, each line into words, and every
//! line is judged on its own against the state before it. The verdict is
//! three-valued. `Unspecified` marks constructs no property speaks about
//! (two statements on one line, `inf`/`nan`, `+3` as an index, `1/` ...); on
//! those the monitors compare nothing but structural invariants.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ix {
    pub v: usize,
    pub vt: Option<usize>,
    pub vn: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum El {
    P(Ix),
    L(Ix, Ix),
    F(Ix, Ix, Ix),
}

impl El {
    pub fn ixs(&self) -> Vec<Ix> {
        match *self {
            El::P(a) => vec![a],
            El::L(a, b) => vec![a, b],
            El::F(a, b, c) => vec![a, b, c],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ob {
    pub name: String,
    pub v: Vec<[u64; 4]>,
    pub vt: Vec<[u64; 3]>,
    pub vn: Vec<[u64; 3]>,
    pub groups: Vec<String>,
    pub smooth: Vec<usize>,
    pub elems: Vec<El>,
    /// (element, groups, smoothing group)
    pub shapes: Vec<(usize, Vec<usize>, usize)>,
    pub geoms: Vec<(Option<String>, Vec<usize>)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Set {
    pub libs: Vec<String>,
    pub objs: Vec<Ob>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Mat {
    pub name: String,
    /// ambient, diffuse, specular, emissive
    pub colors: [[u64; 3]; 4],
    pub exponent: u64,
    pub dissolve: u64,
    pub density: Option<u64>,
    pub illum: u8,
    /// ambient, diffuse, specular, emissive, specular exponent, bump,
    /// displacement, dissolve, decal
    pub maps: [Option<String>; 9],
}

#[derive(Clone, Debug)]
pub enum Verdict<T> {
    Accept(T),
    Reject { line: usize, kinds: Vec<&'static str> },
    #[allow(dead_code)]
    Unspecified(&'static str),
}

/// Canonical bits of a double.
pub fn bits(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.to_bits()
    }
}

#[derive(Clone, Debug)]
pub struct Line<'a> {
    pub no: usize,
    pub words: Vec<&'a str>,
    pub ended: bool,
}

pub fn is_blank(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\\'
}

/// Physical lines (LF, CRLF or CR), with comments removed and words cut.
pub fn lines(text: &str) -> Vec<Line<'_>> {
    let b = text.as_bytes();
    let mut out = Vec::new();
    let (mut start, mut no, mut i) = (0usize, 1usize, 0usize);
    while i <= b.len() {
        let at_end = i == b.len();
        if at_end || b[i] == b'\n' || b[i] == b'\r' {
            let raw = &text[start..i];
            if !(at_end && raw.is_empty()) {
                let body = match raw.find('#') {
                    Some(k) => &raw[..k],
                    None => raw,
                };
                out.push(Line {
                    no,
                    words: body.split(is_blank).filter(|w| !w.is_empty()).collect(),
                    ended: !at_end,
                });
            }
            if !at_end && b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' {
                i += 1;
            }
            start = i + 1;
            no += 1;
        }
        i += 1;
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    Good(f64),
    Bad,
}

/// A coordinate: decimal or exponent notation, or a spelled-out infinity or NaN.
pub fn num(w: &str) -> Num {
    let b = w.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    if ["inf", "infinity", "nan"].contains(&w[i..].to_ascii_lowercase().as_str()) {
        let neg = w.starts_with('-');
        return Num::Good(match b[i] | 32 {
            b'n' => f64::NAN,
            _ if neg => f64::NEG_INFINITY,
            _ => f64::INFINITY,
        });
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    let mut digits = i - d0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let f0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        digits += i - f0;
    }
    let mut good = digits > 0;
    if good && i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let e0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        good = i > e0;
    }
    match (good && i == b.len(), w.parse::<f64>()) {
        (true, Ok(x)) => Num::Good(x),
        _ => Num::Bad,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Int {
    Good(i128),
    Bad,
}

/// `[+-]digits`; magnitudes saturate far outside any representable index.
pub fn int(w: &str) -> Int {
    let (neg, d) = match (w.strip_prefix('-'), w.strip_prefix('+')) {
        (Some(r), _) => (true, r),
        (_, Some(r)) => (false, r),
        _ => (false, w),
    };
    if !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit()) {
        let mut x: i128 = 0;
        for c in d.bytes() {
            x = (x * 10 + (c - b'0') as i128).min(1 << 100);
        }
        return Int::Good(if neg { -x } else { x });
    }
    Int::Bad
}

pub const OBJ_KEYWORDS: [&str; 10] = ["v", "vt", "vn", "g", "s", "usemtl", "p", "l", "f", "o"];
pub const MTL_KEYWORDS: [&str; 19] = [
    "newmtl", "Ka", "Kd", "Ks", "Ke", "d", "illum", "Ns", "Ni", "map_Ka", "map_Kd", "map_Ks", "map_Ke",
    "map_Ns", "map_Bump", "bump", "disp", "map_d", "decal",
];

enum Judge {
    Ok,
    Fault(Vec<&'static str>),
    Odd(&'static str),
}

/// Judge `required` + `optional` numeric operands; returns the numbers.
fn numbers(
    ops: &[&str],
    required: usize,
    optional: usize,
    keywords: &[&str],
    extra_kind: &'static str,
) -> (Vec<f64>, Judge) {
    let mut kinds = Vec::new();
    let mut got = Vec::new();
    let mut surplus = None;
    for (i, w) in ops.iter().enumerate() {
        if i >= required + optional {
            surplus = Some(*w);
            break;
        }
        match num(w) {
            Num::Good(x) => got.push(x),
            Num::Bad if i < required => kinds.push("ExpectedFloat"),
            Num::Bad => {
                surplus = Some(*w);
                break;
            }
        }
    }
    if ops.len() < required {
        kinds.push("ExpectedFloat");
        kinds.push("EndOfFile");
    }
    if !kinds.is_empty() {
        return (got, Judge::Fault(kinds));
    }
    if let Some(w) = surplus {
        if keywords.contains(&w) {
            return (got, Judge::Odd("two statements on one line"));
        }
        return (got, Judge::Fault(vec![extra_kind]));
    }
    (got, Judge::Ok)
}

fn surplus(ops: &[&str], n: usize, keywords: &[&str], kind: &'static str) -> Judge {
    match ops.get(n) {
        None => Judge::Ok,
        Some(w) if keywords.contains(w) => Judge::Odd("two statements on one line"),
        Some(_) => Judge::Fault(vec![kind]),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Part {
    Absent,
    Is(usize),
    Missing,
}

/// Resolve a 1-based or relative number against items `min..max` (file-wide).
fn resolve(x: i128, min: usize, max: usize) -> Option<usize> {
    let g = if x > 0 {
        x - 1
    } else if x < 0 {
        max as i128 + x
    } else {
        return None;
    };
    if g >= min as i128 && g < max as i128 {
        Some((g - min as i128) as usize)
    } else {
        None
    }
}

struct IxJudge {
    ix: Option<Ix>,
    form: Option<u8>,
    kinds: Vec<&'static str>,
    odd: bool,
}

fn index(w: &str, r: &[(usize, usize); 3], parts_max: usize) -> IxJudge {
    let mut j = IxJudge { ix: None, form: None, kinds: vec![], odd: false };
    let parts: Vec<&str> = w.split('/').collect();
    if parts.len() > parts_max {
        j.kinds.push(if parts_max == 1 { "ExpectedInteger" } else { "ExpectedVTNIndex" });
    }
    let mut res = [Part::Missing; 3];
    for (k, p) in parts.iter().take(3).enumerate() {
        if p.is_empty() {
            res[k] = Part::Absent;
            continue;
        }
        match int(p) {
            Int::Bad => j.kinds.push("ExpectedInteger"),
            Int::Good(x) => {
                if x > i64::MAX as i128 || x < i64::MIN as i128 {
                    j.kinds.push("ExpectedInteger");
                    j.kinds.push("VTNIndexOutOfRange");
                } else {
                    match resolve(x, r[k].0, r[k].1) {
                        Some(i) => res[k] = Part::Is(i),
                        None => j.kinds.push("VTNIndexOutOfRange"),
                    }
                }
            }
        }
    }
    if parts[0].is_empty() {
        j.kinds.push("ExpectedVTNIndex");
        j.kinds.push("ExpectedInteger");
    }
    let has = |k: usize| parts.get(k).is_some_and(|p| !p.is_empty());
    let form = (has(1) as u8) | ((has(2) as u8) << 1);
    // `1/`, `1//` and `1/2/` are tolerated spellings no property speaks about.
    if parts.len() <= 3 && !parts.last().unwrap().is_empty() {
        j.form = Some(form);
    } else if parts.len() <= 3 && !parts[0].is_empty() {
        j.odd = true;
    }
    if j.kinds.is_empty() && !j.odd {
        if let Part::Is(v) = res[0] {
            let opt = |p: Part| if let Part::Is(i) = p { Some(i) } else { None };
            j.ix = Some(Ix { v, vt: opt(res[1]), vn: opt(res[2]) });
        }
    }
    j
}

#[derive(Default)]
struct ObState {
    ob: Ob,
    cur_groups: Vec<usize>,
    cur_smooth: usize,
    cur_mat: Option<String>,
    /// A material statement was seen since the last geometry was opened.
    fresh_geom: bool,
    min: [usize; 3],
}

impl ObState {
    fn start(name: &str, counts: &[usize; 3]) -> ObState {
        ObState {
            ob: Ob { name: name.to_string(), ..Ob::default() },
            fresh_geom: true,
            min: *counts,
            ..ObState::default()
        }
    }
    fn add(&mut self, e: El) {
        if self.ob.groups.is_empty() {
            self.ob.groups.push("default".into());
            self.cur_groups = vec![0];
        }
        if self.ob.smooth.is_empty() {
            self.ob.smooth.push(0);
            self.cur_smooth = 0;
        }
        let i = self.ob.elems.len();
        self.ob.elems.push(e);
        self.ob.shapes.push((i, self.cur_groups.clone(), self.cur_smooth));
        if self.fresh_geom {
            self.ob.geoms.push((self.cur_mat.clone(), vec![]));
            self.fresh_geom = false;
        }
        self.ob.geoms.last_mut().unwrap().1.push(i);
    }
}

/// Statement counts seen by the oracle, for the evidence.
#[derive(Default, Clone, Debug)]
pub struct Seen {
    pub statements: u64,
    pub elements: u64,
    pub objects: u64,
    pub lines: u64,
}

pub fn obj(text: &str, seen: &mut Seen) -> Verdict<Set> {
    use Verdict::*;
    if text.starts_with('\u{feff}') {
        return Unspecified("byte order mark");
    }
    let mut set = Set::default();
    let mut cur: Option<ObState> = None;
    let mut header = true;
    let mut counts = [0usize; 3];
    const INV: &str = "InvalidObjectStatement";
    for line in lines(text) {
        seen.lines += 1;
        if line.words.is_empty() {
            continue;
        }
        seen.statements += 1;
        let kw = line.words[0];
        let ops = &line.words[1..];
        if header && kw == "mtllib" {
            set.libs.extend(ops.iter().map(|s| s.to_string()));
            continue;
        }
        header = false;
        let reject = |kinds: Vec<&'static str>| Reject { line: line.no, kinds };
        if kw == "o" {
            match ops.len() {
                0 => return reject(vec!["ExpectedTagStatement", "EndOfFile"]),
                1 if !line.ended => return Unspecified("object statement at the very end"),
                1 => {}
                _ => return reject(vec!["ExpectedTagStatement"]),
            }
            if let Some(s) = cur.take() {
                set.objs.push(s.ob);
            }
            seen.objects += 1;
            cur = Some(ObState::start(ops[0], &counts));
            continue;
        }
        let st = cur.get_or_insert_with(|| ObState::start("", &counts));
        let judge = match kw {
            "v" => {
                let (n, j) = numbers(ops, 3, 1, &OBJ_KEYWORDS, INV);
                if let Judge::Ok = j {
                    st.ob.v.push([bits(n[0]), bits(n[1]), bits(n[2]), bits(*n.get(3).unwrap_or(&1.0))]);
                    counts[0] += 1;
                }
                j
            }
            "vt" => {
                let (n, j) = numbers(ops, 1, 2, &OBJ_KEYWORDS, INV);
                if let Judge::Ok = j {
                    let g = |i: usize| bits(*n.get(i).unwrap_or(&0.0));
                    st.ob.vt.push([g(0), g(1), g(2)]);
                    counts[1] += 1;
                }
                j
            }
            "vn" => {
                let (n, j) = numbers(ops, 3, 0, &OBJ_KEYWORDS, INV);
                if let Judge::Ok = j {
                    st.ob.vn.push([bits(n[0]), bits(n[1]), bits(n[2])]);
                    counts[2] += 1;
                }
                j
            }
            "g" => {
                let first = st.ob.groups.len();
                if ops.is_empty() {
                    st.ob.groups.push("default".into());
                }
                st.ob.groups.extend(ops.iter().map(|s| s.to_string()));
                st.cur_groups = (first..st.ob.groups.len()).collect();
                Judge::Ok
            }
            "s" => match ops.first() {
                None => Judge::Fault(vec!["SmoothingGroupDeclarationHasNoName", "EndOfFile"]),
                Some(w) => {
                    let n = match (*w, int(w)) {
                        ("off", _) => Some(0i128),
                        (_, Int::Good(0)) if w.starts_with('-') => {
                            return Unspecified("negative zero smoothing group")
                        }
                        (_, Int::Good(x)) if (0..=u64::MAX as i128).contains(&x) => Some(x),
                        _ => None,
                    };
                    match n {
                        None => Judge::Fault(vec!["SmoothingGroupNameMustBeOffOrInteger"]),
                        Some(x) => {
                            st.ob.smooth.push(x as usize);
                            st.cur_smooth = st.ob.smooth.len() - 1;
                            surplus(ops, 1, &OBJ_KEYWORDS, INV)
                        }
                    }
                }
            },
            "usemtl" => match ops.first() {
                None => Judge::Fault(vec!["MaterialStatementHasNoName", "EndOfFile"]),
                Some(w) => {
                    st.cur_mat = Some(w.to_string());
                    st.fresh_geom = true;
                    surplus(ops, 1, &OBJ_KEYWORDS, INV)
                }
            },
            "p" | "l" | "f" => {
                let r = [
                    (st.min[0], counts[0]),
                    (st.min[1], counts[1]),
                    (st.min[2], counts[2]),
                ];
                let mut kinds: Vec<&'static str> = vec![];
                let mut odd = false;
                let mut ixs = vec![];
                let mut forms = vec![];
                for w in ops {
                    let j = index(w, &r, if kw == "p" { 1 } else { 3 });
                    kinds.extend(j.kinds);
                    odd |= j.odd;
                    ixs.extend(j.ix);
                    forms.extend(j.form);
                }
                let need = match kw {
                    "p" => 1,
                    "l" => 2,
                    _ => 3,
                };
                if ops.len() < need {
                    if kw == "f" {
                        kinds.push("EveryFaceElementMustHaveAtLeastThreeVertices");
                        if ops.is_empty() {
                            kinds.push("EndOfFile");
                        }
                    } else {
                        kinds.extend(["ExpectedInteger", "ExpectedVTNIndex", "EndOfFile"]);
                    }
                }
                if forms.iter().any(|&f| f != forms[0]) {
                    kinds.push("EveryVTNIndexMustHaveTheSameFormForAGivenElement");
                }
                if !kinds.is_empty() {
                    Judge::Fault(kinds)
                } else if odd {
                    Judge::Odd("tolerated index spelling")
                } else {
                    match kw {
                        "p" => ixs.iter().for_each(|&a| st.add(El::P(a))),
                        "l" => ixs.windows(2).for_each(|w| st.add(El::L(w[0], w[1]))),
                        _ => ixs[1..].windows(2).for_each(|w| st.add(El::F(ixs[0], w[0], w[1]))),
                    }
                    Judge::Ok
                }
            }
            _ => Judge::Fault(vec![INV]),
        };
        match judge {
            Judge::Ok => {}
            Judge::Fault(k) => return reject(k),
            Judge::Odd(w) => return Unspecified(w),
        }
    }
    if let Some(s) = cur.take() {
        set.objs.push(s.ob);
    }
    seen.elements += set.objs.iter().map(|o| o.elems.len() as u64).sum::<u64>();
    Accept(set)
}

pub fn mtl(text: &str, seen: &mut Seen) -> Verdict<Vec<Mat>> {
    use Verdict::*;
    if text.starts_with('\u{feff}') {
        return Unspecified("byte order mark");
    }
    let mut mats: Vec<Mat> = vec![];
    for line in lines(text) {
        seen.lines += 1;
        if line.words.is_empty() {
            continue;
        }
        seen.statements += 1;
        let kw = line.words[0];
        let ops = &line.words[1..];
        let reject = || Reject { line: line.no, kinds: vec![] };
        let judge = if kw == "newmtl" {
            match ops.first() {
                None => Judge::Fault(vec![]),
                Some(w) => {
                    seen.objects += 1;
                    mats.push(Mat {
                        name: w.to_string(),
                        colors: [[bits(0.0); 3]; 4],
                        exponent: bits(0.0),
                        dissolve: bits(1.0),
                        density: None,
                        illum: 2,
                        maps: Default::default(),
                    });
                    surplus(ops, 1, &MTL_KEYWORDS, "")
                }
            }
        } else {
            let Some(m) = mats.last_mut() else {
                return if kw == "Tf" { Unspecified("Tf") } else { reject() };
            };
            let color = match kw {
                "Ka" => Some(0),
                "Kd" => Some(1),
                "Ks" => Some(2),
                "Ke" => Some(3),
                _ => None,
            };
            let map = match kw {
                "map_Ka" => Some(0),
                "map_Kd" => Some(1),
                "map_Ks" => Some(2),
                "map_Ke" => Some(3),
                "map_Ns" => Some(4),
                "map_Bump" | "bump" => Some(5),
                "disp" => Some(6),
                "map_d" => Some(7),
                "decal" => Some(8),
                _ => None,
            };
            if let Some(c) = color {
                let (n, j) = numbers(ops, 3, 0, &MTL_KEYWORDS, "");
                if let Judge::Ok = j {
                    m.colors[c] = [bits(n[0]), bits(n[1]), bits(n[2])];
                }
                j
            } else if let Some(k) = map {
                match ops.first() {
                    None => Judge::Fault(vec![]),
                    Some(w) => {
                        m.maps[k] = Some(w.to_string());
                        surplus(ops, 1, &MTL_KEYWORDS, "")
                    }
                }
            } else if ["d", "Ns", "Ni"].contains(&kw) {
                let (n, j) = numbers(ops, 1, 0, &MTL_KEYWORDS, "");
                if let Judge::Ok = j {
                    match kw {
                        "d" => m.dissolve = bits(n[0]),
                        "Ns" => m.exponent = bits(n[0]),
                        _ => m.density = Some(bits(n[0])),
                    }
                }
                j
            } else if kw == "illum" {
                match ops.first().map(|w| (*w, int(w))) {
                    None => Judge::Fault(vec![]),
                    Some((w, Int::Good(0))) if w.starts_with('-') => Judge::Odd("negative zero"),
                    Some((_, Int::Good(x))) if (0..=2).contains(&x) => {
                        m.illum = x as u8;
                        surplus(ops, 1, &MTL_KEYWORDS, "")
                    }
                    Some(_) => Judge::Fault(vec![]),
                }
            } else if kw == "Tf" {
                // In GRAMMAR.md, but the library has no field for it.
                Judge::Odd("Tf")
            } else {
                Judge::Fault(vec![])
            }
        };
        match judge {
            Judge::Ok => {}
            Judge::Fault(_) => return reject(),
            Judge::Odd(w) => return Unspecified(w),
        }
    }
    Accept(mats)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn line_numbers() {
        let t = "a b#c\r\n\rx\n\n y \\z";
        let l: Vec<_> = lines(t).into_iter().map(|l| (l.no, l.words, l.ended)).collect();
        assert_eq!(
            l,
            vec![
                (1, vec!["a", "b"], true),
                (2, vec![], true),
                (3, vec!["x"], true),
                (4, vec![], true),
                (5, vec!["y", "z"], false)
            ]
        );
    }
    #[test]
    fn numbers_and_ints() {
        assert_eq!(num("1."), Num::Good(1.0));
        assert_eq!(num(".5"), Num::Good(0.5));
        assert_eq!(num("."), Num::Bad);
        assert_eq!(num("-Inf"), Num::Good(f64::NEG_INFINITY));
        assert_eq!(num("1e"), Num::Bad);
        assert_eq!(int("-0012"), Int::Good(-12));
        assert_eq!(int("+1"), Int::Good(1));
        assert_eq!(int("1.0"), Int::Bad);
        assert_eq!(int("-"), Int::Bad);
    }
    #[test]
    fn verdicts() {
        let mut s = Seen::default();
        let ok = "v 1 2 3\nv 1 2 3\nv 1 2 3\nf -3 2 -1\n";
        assert!(matches!(obj(ok, &mut s), Verdict::Accept(_)));
        for (t, l) in [("v 1 2\n", 1), ("\n\nf 1 2 3", 3), ("v 1 1 1\np 0\n", 2), ("v 1 1 1\np 1\nfoo\n", 3)] {
            assert!(matches!(obj(t, &mut s), Verdict::Reject { line, .. } if line == l), "{t:?}");
        }
        for t in ["v 1 2 3 v 1 2 3\n", "v 1 1 1\np 1\nl 1/ 1/\n", "o x"] {
            assert!(matches!(obj(t, &mut s), Verdict::Unspecified(_)), "{t:?}");
        }
    }
}
