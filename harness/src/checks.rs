//! The monitors: one oracle per property, deciding a single observed execution.

use crate::gen;
use crate::model::{self, bits, El, Mat, Ob, Seen, Set, Verdict};
use crate::obs::{self, guarded, Out};
use crate::rng::Rng;
use std::collections::BTreeMap;
use wavefront_obj::{mtl, obj};

#[derive(Clone, Debug)]
pub struct Case {
    pub mtl: bool,
    pub text: String,
    /// Seed of the choices a monitor makes itself (noise, probes, prefixes).
    pub aux: u64,
    /// The generator meant this text to be well-formed.
    pub valid: bool,
}

/// What the monitors saw.
#[derive(Default, Clone)]
pub struct Stats {
    pub ev: BTreeMap<&'static str, u64>,
    pub seen: Seen,
    pub trivial: bool,
    pub harness_error: Option<String>,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.ev.entry(k).or_insert(0) += n;
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.ev {
            *self.ev.entry(k).or_insert(0) += v;
        }
        self.seen.statements += o.seen.statements;
        self.seen.elements += o.seen.elements;
        self.seen.objects += o.seen.objects;
        self.seen.lines += o.seen.lines;
    }
}

pub type Res = Result<(), String>;

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

fn short(s: &str) -> String {
    if s.len() <= 300 {
        return s.to_string();
    }
    let mut i = 300;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}… ({} bytes)", &s[..i], s.len())
}

fn first_diff<T: PartialEq + std::fmt::Debug>(what: &str, want: &[T], got: &[T]) -> Res {
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        if a != b {
            bad!("{what}: item {i} should be {} but is {}", short(&format!("{a:?}")), short(&format!("{b:?}")));
        }
    }
    if want.len() != got.len() {
        bad!("{what}: should have {} items but has {}", want.len(), got.len());
    }
    Ok(())
}

fn floats<const N: usize>(what: &str, want: &[[u64; N]], got: &[[u64; N]]) -> Res {
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        if a != b {
            let f = |x: &[u64; N]| x.map(f64::from_bits);
            bad!("{what}: item {i} should be {:?} but is {:?}", f(a), f(b));
        }
    }
    if want.len() != got.len() {
        bad!("{what}: should have {} items but has {}", want.len(), got.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- structure

/// Invariants of any accepted result, specified text or not.
pub fn structure(prop: &str, set: &Set) -> Res {
    for (k, o) in set.objs.iter().enumerate() {
        let on = prop;
        if on == "C06" || on == "C05" {
            for (i, e) in o.elems.iter().enumerate() {
                for x in e.ixs() {
                    if x.v >= o.v.len()
                        || x.vt.is_some_and(|t| t >= o.vt.len())
                        || x.vn.is_some_and(|n| n >= o.vn.len())
                    {
                        bad!("object {k} element {i}: index {x:?} refers to nothing ({}/{}/{} items)", o.v.len(), o.vt.len(), o.vn.len());
                    }
                }
            }
        }
        if on == "C07" {
            for (i, e) in o.elems.iter().enumerate() {
                let x = e.ixs();
                let f = |j: &model::Ix| (j.vt.is_some(), j.vn.is_some());
                if x.iter().any(|j| f(j) != f(&x[0])) {
                    bad!("object {k} element {i} mixes index forms");
                }
            }
        }
        if on == "C08" || on == "C09" {
            if o.shapes.len() != o.elems.len() {
                bad!("object {k}: {} shape entries for {} elements", o.shapes.len(), o.elems.len());
            }
            for (i, s) in o.shapes.iter().enumerate() {
                if s.0 != i {
                    bad!("object {k}: shape entry {i} describes element {}", s.0);
                }
                if on == "C08" && s.1.iter().any(|&g| g >= o.groups.len()) {
                    bad!("object {k}: shape entry {i} refers to a group beyond the list");
                }
                if on == "C09" && s.2 >= o.smooth.len() {
                    bad!("object {k}: shape entry {i} refers to a smoothing group beyond the list");
                }
            }
        }
        if on == "C10" {
            let mut seen = vec![0u32; o.elems.len()];
            for (g, (_, sh)) in o.geoms.iter().enumerate() {
                for &i in sh {
                    if i >= seen.len() {
                        bad!("object {k}: geometry {g} lists shape {i} of {}", seen.len());
                    }
                    seen[i] += 1;
                }
            }
            if let Some(i) = seen.iter().position(|&n| n != 1) {
                bad!("object {k}: element {i} belongs to {} geometries", seen[i]);
            }
        }
    }
    Ok(())
}

/// C23: whatever was accepted, what came back is consistent in itself.
fn consistent(c: &Case, st: &mut Stats) -> Res {
    st.trivial = true;
    let Out::Ok(set) = obs::run_obj(&c.text) else {
        st.add("not_accepted", 1);
        return Ok(());
    };
    let own = obs::set(&set);
    for p in ["C06", "C07", "C08", "C09", "C10"] {
        structure(p, &own)?;
    }
    for (k, o) in own.objs.iter().enumerate() {
        for (i, s) in o.shapes.iter().enumerate() {
            if s.1.is_empty() {
                bad!("object {k}: element {i} is in no group");
            }
        }
        let lib = &set.objects[k];
        for e in &lib.element_set {
            let (form, all) = match *e {
                obj::Element::Point(a) => (a, vec![a]),
                obj::Element::Line(a, b) => (a, vec![a, b]),
                obj::Element::Face(a, b, d) => (a, vec![a, b, d]),
            };
            for x in all {
                if lib.get_vtn_triple(x).is_none() {
                    bad!("object {k}: {e:?} has an index that cannot be looked up");
                }
                if !x.has_same_type_as(&form) {
                    bad!("object {k}: {e:?} mixes index forms");
                }
                st.add("indices_looked_up", 1);
            }
        }
        st.add("objects_checked", 1);
        st.add("elements_checked", o.elems.len() as u64);
        st.add("geometries_checked", o.geoms.len() as u64);
        st.trivial &= o.elems.is_empty();
    }
    Ok(())
}

// --------------------------------------------------------------- projections

fn same_count(want: &Set, got: &Set) -> Res {
    if want.objs.len() != got.objs.len() {
        bad!("{} objects should be returned but {} are", want.objs.len(), got.objs.len());
    }
    Ok(())
}

fn vertex_data(k: usize, a: &Ob, b: &Ob) -> Res {
    floats(&format!("object {k} vertices"), &a.v, &b.v)?;
    floats(&format!("object {k} texture vertices"), &a.vt, &b.vt)?;
    floats(&format!("object {k} normals"), &a.vn, &b.vn)
}

type Resolved = ([Option<[u64; 4]>; 1], Option<Option<[u64; 3]>>, Option<Option<[u64; 3]>>);

fn resolved(o: &Ob, e: &El) -> Vec<Resolved> {
    e.ixs()
        .into_iter()
        .map(|x| ([o.v.get(x.v).copied()], x.vt.map(|t| o.vt.get(t).copied()), x.vn.map(|n| o.vn.get(n).copied())))
        .collect()
}

fn elements_resolve(k: usize, a: &Ob, b: &Ob) -> Res {
    let ra: Vec<_> = a.elems.iter().map(|e| resolved(a, e)).collect();
    let rb: Vec<_> = b.elems.iter().map(|e| resolved(b, e)).collect();
    for (i, (x, y)) in ra.iter().zip(&rb).enumerate() {
        if x != y || a.elems[i] != b.elems[i] {
            bad!("object {k} element {i}: should name {:?} but names {:?}", a.elems[i], b.elems[i]);
        }
    }
    if ra.len() != rb.len() {
        bad!("object {k}: {} elements expected but {} returned", ra.len(), rb.len());
    }
    Ok(())
}

fn groups(k: usize, a: &Ob, b: &Ob) -> Res {
    let names = |o: &Ob| -> Vec<Vec<Option<String>>> {
        o.shapes.iter().map(|s| s.1.iter().map(|&g| o.groups.get(g).cloned()).collect()).collect()
    };
    first_diff(&format!("object {k}: groups of the elements"), &names(a), &names(b))?;
    // Declared names in order. Entries for the default group that the file
    // does not spell out may stand anywhere.
    let named = |o: &Ob| -> Vec<String> { o.groups.iter().filter(|g| *g != "default").cloned().collect() };
    first_diff(&format!("object {k}: group list"), &named(a), &named(b))?;
    for (i, s) in b.shapes.iter().enumerate() {
        if s.0 != i {
            bad!("object {k}: shape entry {i} describes element {}", s.0);
        }
    }
    Ok(())
}

fn smoothing(k: usize, a: &Ob, b: &Ob) -> Res {
    let nums = |o: &Ob| -> Vec<Option<usize>> { o.shapes.iter().map(|s| o.smooth.get(s.2).copied()).collect() };
    first_diff(&format!("object {k}: smoothing groups of the elements"), &nums(a), &nums(b))?;
    // A leading 0 that the file does not spell out may or may not be listed.
    if a.smooth != b.smooth {
        let strip = |v: &[usize]| -> Vec<usize> { if v.first() == Some(&0) { v[1..].to_vec() } else { v.to_vec() } };
        let close = a.smooth == strip(&b.smooth) || strip(&a.smooth) == b.smooth;
        if !close {
            first_diff(&format!("object {k}: smoothing group list"), &a.smooth, &b.smooth)?;
        }
    }
    Ok(())
}

fn geometries(k: usize, a: &Ob, b: &Ob) -> Res {
    let full = |o: &Ob| -> Vec<(Option<String>, Vec<usize>)> {
        o.geoms.iter().filter(|g| !g.1.is_empty()).cloned().collect()
    };
    first_diff(&format!("object {k}: geometries with elements"), &full(a), &full(b))
}

fn obj_names(a: &Set, b: &Set) -> Res {
    first_diff("material libraries", &a.libs, &b.libs)?;
    let on = |s: &Set| -> Vec<String> { s.objs.iter().map(|o| o.name.clone()).collect() };
    first_diff("object names", &on(a), &on(b))?;
    for (k, (x, y)) in a.objs.iter().zip(&b.objs).enumerate() {
        let named = |o: &Ob| -> Vec<String> { o.groups.iter().filter(|g| *g != "default").cloned().collect() };
        first_diff(&format!("object {k}: group names"), &named(x), &named(y))?;
        let m = |o: &Ob| -> Vec<Option<String>> {
            o.geoms.iter().filter(|g| !g.1.is_empty()).map(|g| g.0.clone()).collect()
        };
        first_diff(&format!("object {k}: material names"), &m(x), &m(y))?;
        let sh = |o: &Ob| -> Vec<Vec<Option<String>>> {
            o.shapes.iter().map(|s| s.1.iter().map(|&g| o.groups.get(g).cloned()).collect()).collect()
        };
        first_diff(&format!("object {k}: groups of the elements"), &sh(x), &sh(y))?;
    }
    Ok(())
}

fn whole(k: usize, a: &Ob, b: &Ob) -> Res {
    if a.name != b.name {
        bad!("object {k} should be named {:?} but is {:?}", short(&a.name), short(&b.name));
    }
    vertex_data(k, a, b)?;
    elements_resolve(k, a, b)?;
    groups(k, a, b)?;
    smoothing(k, a, b)?;
    geometries(k, a, b)
}

fn project_obj(prop: &str, a: &Set, b: &Set) -> Res {
    if prop == "C17" {
        return obj_names(a, b);
    }
    same_count(a, b)?;
    if prop == "C11" {
        first_diff("material libraries", &a.libs, &b.libs)?;
    }
    for (k, (x, y)) in a.objs.iter().zip(&b.objs).enumerate() {
        match prop {
            "C04" => vertex_data(k, x, y)?,
            "C05" | "C06" => elements_resolve(k, x, y)?,
            "C07" => first_diff(&format!("object {k}: elements"), &x.elems, &y.elems)?,
            "C08" => groups(k, x, y)?,
            "C09" => smoothing(k, x, y)?,
            "C10" => geometries(k, x, y)?,
            "C11" => whole(k, x, y)?,
            _ => {}
        }
    }
    Ok(())
}

fn project_mtl(prop: &str, a: &[Mat], b: &[Mat]) -> Res {
    if prop == "C17" {
        let n = |m: &[Mat]| -> Vec<(String, [Option<String>; 9])> {
            m.iter().map(|m| (m.name.clone(), m.maps.clone())).collect()
        };
        return first_diff("material and map names", &n(a), &n(b));
    }
    if prop == "C15" {
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            if x != y {
                let f = |m: &Mat| {
                    format!(
                        "{:?} colors {:?} Ns {} d {} Ni {:?} illum {} maps {:?}",
                        m.name,
                        m.colors.map(|c| c.map(f64::from_bits)),
                        f64::from_bits(m.exponent),
                        f64::from_bits(m.dissolve),
                        m.density.map(f64::from_bits),
                        m.illum,
                        m.maps
                    )
                };
                bad!("material {i} should be {} but is {}", short(&f(x)), short(&f(y)));
            }
        }
        if a.len() != b.len() {
            bad!("{} materials should be returned but {} are", a.len(), b.len());
        }
    }
    Ok(())
}

// ------------------------------------------------------------- error display

/// The number a displayed error gives as its line, or whether it gives it at all.
fn display_shows(display: &str, line: usize) -> bool {
    match obs::shown_line(display) {
        Some(n) => n == line,
        None => {
            let want = line.to_string();
            display.split(|c: char| !c.is_ascii_digit()).any(|d| d == want)
        }
    }
}

// --------------------------------------------------------------- the monitor

const OBJ_VALUE: [&str; 10] = ["C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C17", "C21"];
const MTL_VALUE: [&str; 3] = ["C15", "C17", "C21"];
const OBJ_REJECT: [&str; 3] = ["C06", "C07", "C13"];

fn judge_obj(prop: &str, c: &Case, st: &mut Stats) -> Res {
    let verdict = model::obj(&c.text, &mut st.seen);
    if c.valid && !matches!(verdict, Verdict::Accept(_)) {
        st.harness_error = Some(format!("generator and oracle disagree: {verdict:?}"));
    }
    let out = obs::run_obj(&c.text);
    let values = OBJ_VALUE.contains(&prop);
    match (&verdict, &out) {
        (_, Out::Ok(s)) => {
            let got = obs::set(s);
            st.add("accepted", 1);
            structure(prop, &got)?;
            match &verdict {
                Verdict::Accept(want) => {
                    st.trivial = match prop {
                        "C04" | "C11" | "C17" | "C21" => want.objs.is_empty(),
                        _ => want.objs.iter().all(|o| o.elems.is_empty()),
                    };
                    if values {
                        st.add("values_compared", got.objs.iter().map(weight).sum());
                        project_obj(prop, want, &got)?;
                    }
                    if prop == "C11" {
                        composition(c, s, st)?;
                    }
                }
                Verdict::Reject { line, kinds } => {
                    st.add("reject_expected", 1);
                    let about_index = kinds.iter().any(|k| INDEX_KINDS.contains(k));
                    let about_shape = kinds.iter().any(|k| SHAPE_KINDS.contains(k));
                    let mine = match prop {
                        "C06" => about_index,
                        "C07" => about_shape,
                        "C13" | "C14" => true,
                        _ => false,
                    };
                    if mine {
                        bad!("line {line} is faulty ({kinds:?}) but the text was accepted");
                    }
                }
                Verdict::Unspecified(_) => st.add("unspecified", 1),
            }
        }
        (Verdict::Accept(_), Out::Err(e)) => {
            st.add("rejected", 1);
            if values {
                bad!("well-formed text rejected: {} ({:?})", short(&e.to_string()), e.kind);
            }
        }
        (Verdict::Accept(_), Out::Panic(p)) => {
            if values {
                bad!("well-formed text made the parser panic: {}", short(p));
            }
        }
        (Verdict::Reject { line, kinds }, Out::Err(e)) => {
            st.add("rejected", 1);
            st.add("reject_expected", 1);
            kind_seen(st, &e.kind);
            if prop == "C14" {
                if e.line_number != *line {
                    bad!("fault on line {line} ({kinds:?}) reported on line {} ({:?})", e.line_number, e.kind);
                }
                let k = format!("{:?}", e.kind);
                if !kinds.contains(&k.as_str()) {
                    bad!("fault on line {line} is one of {kinds:?} but was reported as {k}");
                }
                let shown = e.to_string();
                if !display_shows(&shown, *line) {
                    bad!("displayed error does not show line {line}: {}", short(&shown));
                }
            }
        }
        (Verdict::Reject { line, kinds }, Out::Panic(p)) => {
            if OBJ_REJECT.contains(&prop) || prop == "C14" {
                bad!("fault on line {line} ({kinds:?}) made the parser panic instead of reporting it: {}", short(p));
            }
        }
        (Verdict::Unspecified(_), _) => {
            st.add("unspecified", 1);
            st.trivial = true;
        }
    }
    if (prop == "C13" || prop == "C14") && matches!(verdict, Verdict::Accept(_)) {
        st.trivial = true;
    }
    Ok(())
}

const INDEX_KINDS: [&str; 3] = ["ExpectedInteger", "ExpectedVTNIndex", "VTNIndexOutOfRange"];
const SHAPE_KINDS: [&str; 4] = [
    "EveryFaceElementMustHaveAtLeastThreeVertices", "EveryVTNIndexMustHaveTheSameFormForAGivenElement",
    "ExpectedInteger", "ExpectedVTNIndex",
];

fn kind_seen(st: &mut Stats, k: &obj::ErrorKind) {
    use obj::ErrorKind::*;
    st.add(
        match k {
            EndOfFile => "kind_EndOfFile",
            ExpectedTagStatement => "kind_ExpectedTagStatement",
            ExpectedFloat => "kind_ExpectedFloat",
            ExpectedInteger => "kind_ExpectedInteger",
            ExpectedVTNIndex => "kind_ExpectedVTNIndex",
            VTNIndexOutOfRange => "kind_VTNIndexOutOfRange",
            EveryFaceElementMustHaveAtLeastThreeVertices => "kind_FaceTooShort",
            EveryVTNIndexMustHaveTheSameFormForAGivenElement => "kind_MixedForms",
            InvalidObjectStatement => "kind_InvalidObjectStatement",
            SmoothingGroupNameMustBeOffOrInteger => "kind_SmoothingGroupName",
            SmoothingGroupDeclarationHasNoName => "kind_SmoothingGroupNoName",
            MaterialStatementHasNoName => "kind_MaterialNoName",
            _ => "kind_other",
        },
        1,
    );
}

fn weight(o: &Ob) -> u64 {
    (o.v.len() + o.vt.len() + o.vn.len() + o.elems.len() + o.groups.len() + o.smooth.len()) as u64
}

fn judge_mtl(prop: &str, c: &Case, st: &mut Stats) -> Res {
    let verdict = model::mtl(&c.text, &mut st.seen);
    if c.valid && !matches!(verdict, Verdict::Accept(_)) {
        st.harness_error = Some(format!("generator and oracle disagree: {verdict:?}"));
    }
    let out = obs::run_mtl(&c.text);
    let values = MTL_VALUE.contains(&prop);
    match (&verdict, &out) {
        (Verdict::Accept(want), Out::Ok(s)) => {
            st.add("accepted", 1);
            st.trivial = want.is_empty() || prop == "C16";
            if values {
                st.add("values_compared", want.len() as u64 * 17);
                project_mtl(prop, want, &obs::mats(s))?;
            }
        }
        (Verdict::Accept(_), Out::Err(e)) => {
            if values {
                bad!("well-formed text rejected: {}", short(&e.to_string()));
            }
        }
        (Verdict::Accept(_), Out::Panic(p)) => {
            if values {
                bad!("well-formed text made the parser panic: {}", short(p));
            }
        }
        (Verdict::Reject { line, .. }, Out::Ok(_)) => {
            if prop == "C16" {
                bad!("line {line} is faulty but the text was accepted");
            }
        }
        (Verdict::Reject { line, .. }, Out::Err(e)) => {
            st.add("rejected", 1);
            if prop == "C16" {
                let shown = e.to_string();
                if !display_shows(&shown, *line) {
                    bad!("fault on line {line} but the displayed error says: {}", short(&shown));
                }
            }
        }
        (Verdict::Reject { line, .. }, Out::Panic(p)) => {
            if prop == "C16" {
                bad!("fault on line {line} made the parser panic instead of reporting it: {}", short(p));
            }
        }
        (Verdict::Unspecified(_), _) => {
            st.add("unspecified", 1);
            st.trivial = true;
        }
    }
    Ok(())
}

// ------------------------------------------------------- C11: composition

/// Earlier objects are unaffected by what follows; relative-only objects parse
/// the same wherever they stand.
fn composition(c: &Case, full: &obj::ObjectSet, st: &mut Stats) -> Res {
    let mut r = Rng::new(&[c.aux, 11]);
    let lines = model::lines(&c.text);
    let obs_at: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].words.first() == Some(&"o")).collect();
    if c.text.len() > 200_000 {
        return Ok(());
    }
    let render = |ls: &[model::Line]| -> String {
        let mut s = String::new();
        for l in ls {
            s.push_str(&l.words.join(" "));
            s.push('\n');
        }
        s
    };
    let fp = |o: &obj::Object| obs::object(o);
    if let Some(&cut) = obs_at.get(r.below(obs_at.len().max(1))) {
        let head = render(&lines[..cut]);
        match obs::run_obj(&head) {
            Out::Ok(s) => {
                st.add("prefixes_compared", 1);
                if s.objects.len() > full.objects.len() {
                    bad!("the first {} lines alone give {} objects, the whole text {}", cut, s.objects.len(), full.objects.len());
                }
                for (k, (a, b)) in s.objects.iter().zip(&full.objects).enumerate() {
                    if fp(a) != fp(b) {
                        bad!("object {k} changes when further objects are appended after line {cut}");
                    }
                }
            }
            Out::Err(e) => bad!("the first {cut} lines are rejected on their own: {}", short(&e.to_string())),
            Out::Panic(p) => bad!("the first {cut} lines alone make the parser panic: {}", short(&p)),
        }
        // Relocation of the tail, when it uses relative indices only.
        let tail = &lines[cut..];
        let relative = tail.iter().all(|l| {
            !["p", "l", "f"].contains(l.words.first().unwrap_or(&"")) || l.words[1..].iter().all(|w| w.split('/').all(|p| p.is_empty() || p.starts_with('-')))
        });
        if relative {
            let mut cfg = gen::Cfg::base();
            cfg.stmts.1 = 12;
            let d = gen::Dict::default();
            let pre = gen::plain(&gen::obj_doc(&mut r, &d, cfg));
            let t = render(tail);
            let moved = format!("{pre}{t}");
            let (a, b) = (obs::run_obj(&t), obs::run_obj(&moved));
            match (a, b) {
                (Out::Ok(a), Out::Ok(b)) => {
                    st.add("relocations_compared", 1);
                    let k = b.objects.len() as i64 - a.objects.len() as i64;
                    if k < 0 {
                        bad!("appending {} objects to another file gives only {}", a.objects.len(), b.objects.len());
                    }
                    for (i, o) in a.objects.iter().enumerate() {
                        if fp(o) != fp(&b.objects[k as usize + i]) {
                            bad!("object {i} of\n{t}\nparses differently when appended to\n{}", short(&pre));
                        }
                    }
                }
                (a, b) => {
                    let e = |o: &obs::ObjOut| match o {
                        Out::Ok(_) => "accepted".to_string(),
                        Out::Err(e) => short(&e.to_string()),
                        Out::Panic(p) => format!("panic: {}", short(p)),
                    };
                    bad!("relative-only objects from line {cut}: alone {}, appended {}", e(&a), e(&b));
                }
            }
        }
    }
    Ok(())
}

// --------------------------------------------------- C01: totality

fn totality(c: &Case, st: &mut Stats) -> Res {
    let n = c.text.len() as u64;
    st.trivial = n == 0;
    for both in [false, true] {
        // Every text is fed to both parsers.
        if both && c.text.len() > 100_000 {
            break;
        }
        let as_mtl = c.mtl != both;
        crate::alloc::budget(Some((n * 3000).max(64 << 20)));
        let r = if as_mtl {
            let o = guarded(|| mtl::parse(&c.text));
            o.and_then(|r| {
                st.add(if r.is_ok() { "mtl_ok" } else { "mtl_err" }, 1);
                guarded(|| match &r {
                    Ok(s) => format!("{s:?}").len(),
                    Err(e) => e.to_string().len() + format!("{e:?}").len(),
                })
                .map_err(|p| format!("while formatting: {p}"))
            })
        } else {
            let o = guarded(|| obj::parse(&c.text));
            o.and_then(|r| {
                st.add(if r.is_ok() { "obj_ok" } else { "obj_err" }, 1);
                guarded(|| match &r {
                    Ok(s) => {
                        let mut k = s.to_string().len() + format!("{s:?}").len();
                        for o in &s.objects {
                            k += o.to_string().len();
                            if c.text.len() < 20_000 {
                                k += o.vertex_set.iter().map(|v| v.to_string().len()).sum::<usize>();
                                k += o.texture_vertex_set.iter().map(|v| v.to_string().len()).sum::<usize>();
                                k += o.normal_vertex_set.iter().map(|v| v.to_string().len()).sum::<usize>();
                                k += o.element_set.iter().map(|v| v.to_string().len()).sum::<usize>();
                                k += o.group_set.iter().map(|v| v.to_string().len()).sum::<usize>();
                                k += o.smoothing_group_set.iter().map(|v| v.to_string().len()).sum::<usize>();
                            }
                        }
                        k
                    }
                    Err(e) => e.to_string().len() + format!("{e:?}").len(),
                })
                .map_err(|p| format!("while formatting: {p}"))
            })
        };
        crate::alloc::budget(None);
        match r {
            Ok(k) => st.add("characters_formatted", k as u64),
            Err(p) => bad!("{} parser panicked: {}", if as_mtl { "MTL" } else { "OBJ" }, short(&p)),
        }
    }
    Ok(())
}

// --------------------------------------------------- C02: strings

fn utf8(what: &str, s: &str, st: &mut Stats) -> Res {
    // Look at the bytes through a copy the optimiser cannot assume to be UTF-8.
    let b: Vec<u8> = std::hint::black_box(s.as_bytes()).to_vec();
    st.add("strings_checked", 1);
    if !b.is_ascii() {
        st.add("non_ascii_strings_checked", 1);
        st.trivial = false;
    }
    if std::str::from_utf8(std::hint::black_box(&b)).is_err() {
        bad!("{what} is not valid UTF-8: {:02x?}", &b[..b.len().min(64)]);
    }
    Ok(())
}

/// Touch everything returned; every string must be valid UTF-8.
pub fn strings(c: &Case, st: &mut Stats) -> Res {
    st.trivial = true;
    // An exactly sized heap copy, so that sanitizers see any overrun.
    let text: Box<str> = c.text.clone().into_boxed_str();
    let (o, m) = (guarded(|| obj::parse(&text)), guarded(|| mtl::parse(&text)));
    let mut keep = vec![];
    match o {
        Err(_) => st.add("panicked", 1),
        Ok(Err(e)) => {
            drop(text.clone());
            utf8("error message", &e.message, st)?;
            utf8("displayed error", &e.to_string(), st)?;
            utf8("debug error", &format!("{e:?}"), st)?;
        }
        Ok(Ok(s)) => {
            for l in &s.material_libraries {
                utf8("material library name", l, st)?;
            }
            for o in &s.objects {
                utf8("object name", &o.name, st)?;
                for g in &o.group_set {
                    utf8("group name", &g.0, st)?;
                }
                for g in &o.geometry_set {
                    if let Some(m) = &g.material_name {
                        utf8("material name", m, st)?;
                    }
                }
                let mut sum = 0.0;
                for e in &o.element_set {
                    let v = match *e {
                        obj::Element::Point(a) => vec![a],
                        obj::Element::Line(a, b) => vec![a, b],
                        obj::Element::Face(a, b, c) => vec![a, b, c],
                    };
                    for i in v {
                        if let Ok(Some(t)) = guarded(|| o.get_vtn_triple(i)) {
                            sum += match t {
                                obj::VTNTriple::V(v) => v.x,
                                obj::VTNTriple::VT(v, t) => v.y + t.u,
                                obj::VTNTriple::VN(v, n) => v.z + n.x,
                                obj::VTNTriple::VTN(v, t, n) => v.w + t.w + n.z,
                            };
                        }
                    }
                }
                std::hint::black_box(sum);
                if text.len() < 20_000 {
                    utf8("displayed object", &guarded(|| o.to_string()).unwrap_or_default(), st)?;
                }
            }
            keep.push(obs::set(&s));
            drop(s);
        }
    }
    match m {
        Err(_) => st.add("panicked", 1),
        Ok(Err(e)) => {
            utf8("displayed error", &e.to_string(), st)?;
            utf8("debug error", &format!("{e:?}"), st)?;
        }
        Ok(Ok(s)) => {
            for m in &s.materials {
                utf8("material name", &m.name, st)?;
                for p in obs::material(m).maps.iter().flatten() {
                    utf8("map name", p, st)?;
                }
            }
        }
    }
    drop(text);
    std::hint::black_box(&keep);
    Ok(())
}

// --------------------------------------------------- C12: lexical noise

fn lexical(c: &Case, st: &mut Stats) -> Res {
    let mut r = Rng::new(&[c.aux, 12]);
    let ls = model::lines(&c.text);
    let words: Vec<Vec<&str>> = ls.iter().map(|l| l.words.clone()).collect();
    let ended = ls.last().map_or(true, |l| l.ended);
    st.trivial = ls.is_empty();
    #[derive(PartialEq, Debug)]
    enum R {
        Obj(Set),
        Mtl(Vec<Mat>),
        Err(Option<usize>, String),
        Panic,
    }
    let run = |t: &str| -> R {
        if c.mtl {
            match obs::run_mtl(t) {
                Out::Ok(s) => R::Mtl(obs::mats(&s)),
                Out::Err(e) => R::Err(obs::shown_line(&e.to_string()), String::new()),
                Out::Panic(_) => R::Panic,
            }
        } else {
            match obs::run_obj(t) {
                Out::Ok(s) => R::Obj(obs::set(&s)),
                Out::Err(e) => R::Err(Some(e.line_number), format!("{:?}", e.kind)),
                Out::Panic(_) => R::Panic,
            }
        }
    };
    let base = run(&c.text);
    match base {
        R::Obj(_) | R::Mtl(_) => st.add("accepted", 1),
        R::Err(..) => st.add("rejected", 1),
        R::Panic => st.add("panicked", 1),
    }
    let ok = matches!(base, R::Obj(_) | R::Mtl(_));
    let last_o = ls.iter().rev().find(|l| !l.words.is_empty()).is_some_and(|l| l.words.contains(&"o"));
    let rounds = if c.text.len() > 50_000 { 1 } else { 3 };
    for k in 0..rounds {
        let end = if ok && !last_o && r.pct(30) { !ended } else { ended };
        // Dropping the line end turns a final run of blank lines into none.
        let mut w = words.clone();
        if end != ended && !end {
            while w.last().is_some_and(|l| l.is_empty()) {
                w.pop();
            }
        }
        let level = if k == 0 { 0 } else { *r.pick(&[5usize, 20, 45]) };
        let (mut t, map) = gen::noisy(&mut r, &w, end, level);
        if end && r.pct(20) {
            t.push_str(*r.pick(&["\n", "#", "# x", "  ", "\r\n\r\n", "\t# y\n"]));
        }
        let again = run(&t);
        st.add("renderings_compared", 1);
        let want = match &base {
            R::Err(l, kind) => {
                let at = l.and_then(|l| ls.iter().position(|x| x.no == l));
                match at {
                    Some(i) => R::Err(map.get(i).copied(), kind.clone()),
                    None => {
                        st.add("error_line_outside_text", 1);
                        continue;
                    }
                }
            }
            _ => {
                if again != base {
                    bad!("same words, different layout, different result; other layout:\n{}", short(&format!("{t:?}")));
                }
                continue;
            }
        };
        if again != want {
            bad!("same words, different layout: expected {} but got {}; other layout:\n{}", short(&format!("{want:?}")), short(&format!("{again:?}")), short(&format!("{t:?}")));
        }
    }
    Ok(())
}

// --------------------------------------------------- C19: lookup

fn lookup(c: &Case, st: &mut Stats) -> Res {
    use obj::{VTNIndex as I, VTNTriple as T};
    let mut r = Rng::new(&[c.aux, 19]);
    let mut objects = vec![];
    if let Out::Ok(s) = obs::run_obj(&c.text) {
        objects.extend(s.objects);
    }
    // Hand-made objects, whose lists need not fit any elements.
    let len = |r: &mut Rng| match r.below(8) {
        0 => 0,
        1 => r.range(1, 2),
        2 => r.range(250, 260),
        _ => r.range(0, 9),
    };
    let (a, b, n) = (len(&mut r), len(&mut r), len(&mut r));
    let mut serial = 0.0;
    let mut next = || {
        serial += 1.0;
        serial
    };
    objects.push(obj::Object {
        vertex_set: (0..a).map(|_| obj::Vertex { x: next(), y: next(), z: next(), w: next() }).collect(),
        texture_vertex_set: (0..b).map(|_| obj::TextureVertex { u: next(), v: next(), w: next() }).collect(),
        normal_vertex_set: (0..n).map(|_| obj::NormalVertex { x: next(), y: next(), z: next() }).collect(),
        ..obj::Object::default()
    });
    let vb = |v: &obj::Vertex| [bits(v.x), bits(v.y), bits(v.z), bits(v.w)];
    let tb = |v: &obj::TextureVertex| [bits(v.u), bits(v.v), bits(v.w)];
    let nb = |v: &obj::NormalVertex| [bits(v.x), bits(v.y), bits(v.z)];
    let mut made: Vec<I> = vec![];
    for o in &objects {
        let pos = |r: &mut Rng, n: usize| match r.below(12) {
            0 => n,
            1 => n + 1,
            2 => usize::MAX - r.below(2),
            3 => *r.pick(&[1usize << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, (1 << 32) + 1]),
            4 => 0,
            5 => n.wrapping_sub(1),
            6 => n + r.range(0, 300),
            _ => r.below(n.max(1)),
        };
        let mut probes: Vec<I> = (0..24)
            .map(|_| {
                let (v, t, m) = (
                    pos(&mut r, o.vertex_set.len()),
                    pos(&mut r, o.texture_vertex_set.len()),
                    pos(&mut r, o.normal_vertex_set.len()),
                );
                match r.below(4) {
                    0 => I::V(v),
                    1 => I::VT(v, t),
                    2 => I::VN(v, m),
                    _ => I::VTN(v, t, m),
                }
            })
            .collect();
        for e in o.element_set.iter().take(200) {
            match *e {
                obj::Element::Point(a) => probes.push(a),
                obj::Element::Line(a, b) => probes.extend([a, b]),
                obj::Element::Face(a, b, c) => probes.extend([a, b, c]),
            }
        }
        for &p in &probes {
            let ix = obs::ix(p);
            let want_v = o.vertex_set.get(ix.v).map(vb);
            let want_t = ix.vt.map(|t| o.texture_vertex_set.get(t).map(tb));
            let want_n = ix.vn.map(|n| o.normal_vertex_set.get(n).map(nb));
            let hit = want_v.is_some() && want_t != Some(None) && want_n != Some(None);
            let got = match guarded(|| o.get_vtn_triple(p)) {
                Ok(g) => g,
                Err(e) => bad!("looking up {p:?} panicked: {}", short(&e)),
            };
            st.add(if hit { "lookups_found" } else { "lookups_absent" }, 1);
            let seen = got.map(|t| match t {
                T::V(v) => (vb(v), None, None),
                T::VT(v, t) => (vb(v), Some(tb(t)), None),
                T::VN(v, n) => (vb(v), None, Some(nb(n))),
                T::VTN(v, t, n) => (vb(v), Some(tb(t)), Some(nb(n))),
            });
            let want = hit.then(|| (want_v.unwrap(), want_t.flatten(), want_n.flatten()));
            if seen != want {
                bad!(
                    "looking up {p:?} in lists of {}/{}/{} items: expected {}, got {:?}",
                    o.vertex_set.len(),
                    o.texture_vertex_set.len(),
                    o.normal_vertex_set.len(),
                    if hit { "the named data" } else { "nothing" },
                    got
                );
            }
        }
        made.extend(probes.into_iter().take(12));
    }
    for x in made.iter().take(400) {
        for y in made.iter().take(16) {
            let f = |i: &I| (obs::ix(*i).vt.is_some(), obs::ix(*i).vn.is_some());
            st.add("type_comparisons", 1);
            if x.has_same_type_as(y) != (f(x) == f(y)) {
                bad!("{x:?}.has_same_type_as({y:?}) is {}", x.has_same_type_as(y));
            }
        }
    }
    Ok(())
}

// --------------------------------------------------- C20: display

fn display(c: &Case, st: &mut Stats) -> Res {
    let Out::Ok(s) = obs::run_obj(&c.text) else {
        st.trivial = true;
        return Ok(());
    };
    st.trivial = s.objects.iter().all(|o| o.vertex_set.is_empty());
    let set = match guarded(|| s.to_string()) {
        Ok(t) => t,
        Err(p) => bad!("displaying the object set panicked: {}", short(&p)),
    };
    summary(&set, &s.objects, st)?;
    let odd = matches!(model::obj(&c.text, &mut Seen::default()), Verdict::Unspecified(_));
    for (k, o) in s.objects.iter().enumerate() {
        if k < 50 {
            let one = match guarded(|| o.to_string()) {
                Ok(t) => t,
                Err(p) => bad!("displaying object {k} panicked: {}", short(&p)),
            };
            summary(&one, std::slice::from_ref(o), st)?;
        }
        if odd {
            continue;
        }
        let built = guarded(|| {
            use std::fmt::Write;
            let mut t = String::new();
            let _ = writeln!(t, "o {}", if o.name.is_empty() { "unnamed" } else { &o.name });
            // vertices in three runs or interleaved, as lists allow
            for v in &o.vertex_set {
                let _ = writeln!(t, "{v}");
            }
            for v in &o.texture_vertex_set {
                let _ = writeln!(t, "{v}");
            }
            for v in &o.normal_vertex_set {
                let _ = writeln!(t, "{v}");
            }
            let mut last: Option<(&Vec<usize>, usize)> = None;
            for (i, e) in o.element_set.iter().enumerate() {
                let sh = &o.shape_set[i];
                if last != Some((&sh.groups, sh.smoothing_group)) {
                    let g: Vec<String> = sh.groups.iter().map(|&g| o.group_set[g].to_string()).collect();
                    let _ = writeln!(t, "g {}", g.join(" "));
                    let _ = writeln!(t, "s {}", o.smoothing_group_set[sh.smoothing_group]);
                    last = Some((&sh.groups, sh.smoothing_group));
                }
                let _ = writeln!(t, "{e}");
            }
            t
        });
        let t = match built {
            Ok(t) => t,
            Err(p) => bad!("displaying the parts of object {k} panicked: {}", short(&p)),
        };
        let back = match obs::run_obj(&t) {
            Out::Ok(s) => s,
            Out::Err(e) => bad!("displayed object {k} does not parse: {} in\n{}", short(&e.to_string()), short(&t)),
            Out::Panic(p) => bad!("displayed object {k} makes the parser panic: {} in\n{}", short(&p), short(&t)),
        };
        st.add("round_trips", 1);
        st.add("displayed_items", (o.vertex_set.len() + o.texture_vertex_set.len() + o.normal_vertex_set.len() + o.element_set.len()) as u64);
        if back.objects.len() != 1 {
            bad!("displayed object {k} reads back as {} objects", back.objects.len());
        }
        let (a, b) = (obs::object(o), obs::object(&back.objects[0]));
        let what = |x: String| format!("displayed and read back: {x}");
        vertex_data(k, &a, &b).map_err(what)?;
        first_diff(&format!("displayed and read back: object {k} elements"), &a.elems, &b.elems)?;
        let names = |o: &Ob| -> Vec<Vec<String>> {
            o.shapes.iter().map(|s| s.1.iter().map(|&g| o.groups[g].clone()).collect()).collect()
        };
        first_diff(&format!("displayed and read back: object {k} groups"), &names(&a), &names(&b))?;
        let nums = |o: &Ob| -> Vec<usize> { o.shapes.iter().map(|s| o.smooth[s.2]).collect() };
        first_diff(&format!("displayed and read back: object {k} smoothing groups"), &nums(&a), &nums(&b))?;
    }
    Ok(())
}

/// Names, lengths and end entries in a displayed object or set.
fn summary(shown: &str, objects: &[obj::Object], st: &mut Stats) -> Res {
    st.add("summaries", 1);
    let mut lines = shown.split('\n').map(|l| l.trim_start_matches([' ', '\t'])).peekable();
    if !shown.contains("length:") || !shown.contains("data:") {
        // Some other layout: at least everything must be there.
        for (k, o) in objects.iter().enumerate() {
            let (v, e) = (&o.vertex_set, &o.element_set);
            let mut parts = vec![o.name.clone(), v.len().to_string(), e.len().to_string()];
            parts.extend(v.first().map(|x| x.to_string()));
            parts.extend(v.last().map(|x| x.to_string()));
            parts.extend(e.first().map(|x| x.to_string()));
            parts.extend(e.last().map(|x| x.to_string()));
            if let Some(p) = parts.iter().find(|p| !shown.contains(p.as_str())) {
                bad!("displayed form of object {k} does not show {}", short(p));
            }
        }
        return Ok(());
    }
    for (k, o) in objects.iter().enumerate() {
        fn ends<T: std::fmt::Display>(v: &[T]) -> (usize, Option<(String, String)>) {
            (v.len(), v.first().map(|f| (f.to_string(), v[v.len() - 1].to_string())))
        }
        let want = [
            ("vertex", ends(&o.vertex_set)),
            ("texture vertex", ends(&o.texture_vertex_set)),
            ("normal vertex", ends(&o.normal_vertex_set)),
            ("group", ends(&o.group_set)),
            ("smoothing group", ends(&o.smoothing_group_set)),
            ("element", ends(&o.element_set)),
        ];
        let Some(l) = lines.find(|l| l.starts_with("name:")) else { bad!("object {k} of the displayed set has no name line") };
        let name = l.strip_prefix("name:").unwrap();
        if name.strip_prefix(' ').unwrap_or(name) != o.name {
            bad!("displayed object {k} shows {} instead of its name {}", short(l), short(&o.name));
        }
        for (list, (n, e)) in want {
            let Some(l) = lines.find(|l| l.starts_with("data:")) else { bad!("displayed object {k} has no data line for its {list} list") };
            if let Some((first, last)) = e {
                // first … last, in that order, on one line
                let body = l.strip_prefix("data:").unwrap();
                let wrapped = |s: &str| format!("({s})");
                let okay = match (body.find(&wrapped(&first)), body.rfind(&wrapped(&last))) {
                    (Some(a), Some(b)) => a <= b && (a < b || n == 1 || first == last) && body.trim_start_matches([' ', '[']).starts_with(&wrapped(&first)) && body.trim_end_matches(']').ends_with(&wrapped(&last)),
                    // parentheses are a detail of the layout
                    _ => !l.contains('(') && body.contains(&first) && body.contains(&last),
                };
                if !okay {
                    bad!("displayed object {k}, {list} list: expected {} … {} but shows {}", short(&first), short(&last), short(l));
                }
            }
            let Some(l) = lines.find(|l| l.starts_with("length:")) else { bad!("displayed object {k} has no length line for its {list} list") };
            if l.strip_prefix("length:").unwrap().trim() != n.to_string() {
                bad!("displayed object {k}, {list} list: has {n} items but shows {}", short(l));
            }
        }
    }
    Ok(())
}

// --------------------------------------------------- C18: purity (in-process)

/// All entry points, string types, surroundings and repetitions agree.
/// A text that differs from `t` in little.
fn neighbour(t: &str, r: &mut Rng) -> String {
    let mut s = t.to_string();
    let at: Vec<usize> = t.bytes().enumerate().filter(|(_, b)| b.is_ascii_alphanumeric()).map(|(i, _)| i).collect();
    if at.is_empty() || r.pct(15) {
        s.push_str(*r.pick(&["\n", " ", "x", "\nv 1 2 3\n", "\nnewmtl zz\n"]));
        return s;
    }
    if r.pct(30) {
        // the same characters in another order
        if r.pct(60) {
            let (a, b) = (*r.pick(&at), *r.pick(&at));
            let mut v = s.into_bytes();
            v.swap(a, b); // both ASCII
            return String::from_utf8(v).unwrap_or_else(|_| t.to_string());
        }
        let mut lines: Vec<&str> = t.split_inclusive('\n').collect();
        let (a, b) = (r.below(lines.len()), r.below(lines.len()));
        lines.swap(a, b);
        return lines.concat();
    }
    for _ in 0..r.range(1, 2) {
        // early, late or anywhere; the length stays
        let k = match r.below(4) {
            0 => at[0],
            1 => at[at.len() - 1],
            _ => *r.pick(&at),
        };
        let new = *r.pick(&["0", "1", "2", "7", "9", "a", "z"]);
        s.replace_range(k..k + 1, new);
    }
    s
}

fn purity(c: &Case, st: &mut Stats) -> Res {
    use std::borrow::Cow;
    let t: &str = &c.text;
    st.trivial = t.is_empty();
    let mut r = Rng::new(&[c.aux, 18]);
    let pre = *r.pick(&["", "v 1 2 3\n", "#", "o x", "\r", "é", "f 1 ", "newmtl a\n", "\\"]);
    let post = *r.pick(&["", "\n", " 4", "\nv 1 2 3\n", "\nbad", "é", "#", "/1", "9", "e5", "\r\n"]);
    let big = format!("{pre}{t}{post}");
    let slice = &big[pre.len()..pre.len() + t.len()];
    macro_rules! all {
        ($m:ident, $fp:path, $method:ident, $clone:expr) => {{
            let want = match guarded(|| $m::parse(t)) {
                Ok(o) => $fp(&o),
                Err(_) => "PANIC".to_string(),
            };
            let mut ways: Vec<(&str, Result<String, String>)> = vec![
                ("String", guarded(|| $fp(&$m::parse(t.to_string())))),
                ("&String", guarded(|| $fp(&$m::parse(&t.to_string())))),
                ("Box<str>", guarded(|| $fp(&$m::parse(Box::<str>::from(t))))),
                ("Cow<str>", guarded(|| $fp(&$m::parse(Cow::Borrowed(t))))),
                ("Rc<str>", guarded(|| $fp(&$m::parse(std::rc::Rc::<str>::from(t))))),
                ("Parser", guarded(|| $fp(&$m::Parser::new(t).$method()))),
                ("slice of a larger text", guarded(|| $fp(&$m::parse(slice)))),
                ("second parse", guarded(|| $fp(&$m::parse(t)))),
            ];
            ways.extend($clone(t));
            if t.len() < 20_000 {
                // Neighbours parsed just before, from the same buffer or not.
                for k in 0..3 {
                    let near = neighbour(t, &mut r);
                    let mut buf = String::with_capacity(t.len().max(near.len()) + 8);
                    if k == 0 {
                        buf.push_str(&near);
                        let _ = guarded(|| $m::parse(buf.as_str()).is_ok());
                        buf.clear();
                        buf.push_str(t);
                        ways.push(("a buffer that held another text", guarded(|| $fp(&$m::parse(buf.as_str())))));
                    } else {
                        let _ = guarded(|| $m::parse(near.as_str()).is_ok());
                        ways.push(("a parse after that of a similar text", guarded(|| $fp(&$m::parse(t)))));
                    }
                }
            }
            for (how, got) in ways {
                st.add("comparisons", 1);
                let got = got.unwrap_or_else(|_| "PANIC".into());
                if got != want {
                    bad!("{} parse via {how} gives {} instead of {}", stringify!($m), short(&got), short(&want));
                }
            }
        }};
    }
    if c.mtl {
        all!(mtl, obs::fingerprint_mtl, parse_mtlset, |_t: &str| -> Vec<(&'static str, Result<String, String>)> { vec![] });
    } else {
        all!(obj, obs::fingerprint_obj, parse_objset, |t: &str| -> Vec<(&'static str, Result<String, String>)> {
            vec![
                ("cloned parser", guarded(|| {
                    let a = obj::Parser::new(t);
                    let mut b = a.clone();
                    drop(a);
                    obs::fingerprint_obj(&b.parse_objset())
                })),
                ("original after its clone parsed", guarded(|| {
                    let mut a = obj::Parser::new(t);
                    let mut b = a.clone();
                    let _ = b.parse_objset();
                    obs::fingerprint_obj(&a.parse_objset())
                })),
            ]
        });
    }
    Ok(())
}

// ----------------------------------------------------------------- dispatch

pub fn check(prop: &str, c: &Case, st: &mut Stats) -> Res {
    match prop {
        "C01" => totality(c, st),
        "C02" => strings(c, st),
        "C12" => lexical(c, st),
        "C18" => purity(c, st),
        "C19" => lookup(c, st),
        "C20" => display(c, st),
        "C23" => consistent(c, st),
        "C22" => crate::retain::released(c, st),
        _ if c.mtl => judge_mtl(prop, c, st),
        _ => judge_obj(prop, c, st),
    }
}
