//! Which cases a property's monitor is run on: `case(prop, seed, index)` is a
//! pure function, so any case can be regenerated on its own.

use crate::checks::Case;
use crate::faults;
use crate::gen::{self, Cfg, Dict, Doc};
use crate::rng::{fnv, Rng};
use crate::stress;

pub struct Plan {
    pub d: Dict,
    pub seed: u64,
    pub assets: Vec<(String, String)>,
    /// (mtl, dimension, size)
    pub stress: Vec<(bool, &'static str, usize)>,
    pub asset_cases: usize,
}

fn uses_obj(p: &str) -> bool {
    !["C15", "C16"].contains(&p)
}
fn uses_mtl(p: &str) -> bool {
    ["C01", "C02", "C12", "C15", "C16", "C17", "C18", "C21", "C22"].contains(&p)
}

pub fn plan(prop: &str, seed: u64, thorough: bool, src: &str, assets_dir: &str) -> Plan {
    let d = Dict::from_sources(src);
    let mut assets = vec![];
    if let Ok(rd) = std::fs::read_dir(assets_dir) {
        let mut ps: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        ps.sort();
        for p in ps {
            if p.extension().is_some_and(|e| e == "obj" || e == "mtl") {
                if let Ok(t) = std::fs::read_to_string(&p) {
                    assets.push((p.file_name().unwrap().to_string_lossy().into_owned(), t));
                }
            }
        }
    }
    let mut s = vec![];
    for n in stress::sizes(&d, thorough) {
        if uses_obj(prop) {
            s.extend(stress::OBJ_DIMS.iter().map(|k| (false, *k, n)));
            s.extend(BULK.iter().map(|k| (false, *k, n)));
        }
        if uses_mtl(prop) {
            s.extend(stress::MTL_DIMS.iter().map(|k| (true, *k, n)));
        }
    }
    // Quadratic results (k names on m elements) and slow monitors stay small.
    let cap = |k: &str| match k {
        "objects" | "emptyobjects" | "bulk_o" if prop == "C20" || prop == "C11" => 200_000,
        _ if prop == "C18" || prop == "C22" => 200_000,
        "digits" => 200_000,
        _ => usize::MAX,
    };
    s.retain(|(_, k, n)| *n <= cap(k));
    // Largest first, so that the parallel run ends evenly.
    s.sort_by_key(|x| std::cmp::Reverse(x.2));
    let asset_cases = if assets.is_empty() || !uses_obj(prop) { 0 } else { assets.len() * if thorough { 40 } else { 8 } };
    Plan { d, seed, assets, stress: s, asset_cases }
}

impl Plan {
    pub fn fixed(&self) -> usize {
        self.stress.len() + self.asset_cases
    }
}

/// Random documents with one kind of thing in bulk (gen::ObjGen::bulk).
const BULK: [&str; 12] = [
    "bulk_v", "bulk_vt", "bulk_vn", "bulk_g", "bulk_s", "bulk_usemtl", "bulk_elements", "bulk_more_elements", "bulk_indices",
    "bulk_more_indices", "bulk_o", "bulk_names",
];

fn words(text: &str) -> Doc {
    crate::model::lines(text)
        .into_iter()
        .filter(|l| !l.words.is_empty())
        .map(|l| l.words.into_iter().map(String::from).collect())
        .collect()
}

pub fn case(prop: &str, p: &Plan, index: usize) -> Case {
    let mut r = Rng::new(&[fnv(prop.as_bytes()), p.seed, index as u64]);
    let r = &mut r;
    let aux = r.next();
    let mk = |mtl: bool, text: String, valid: bool| Case { mtl, text, aux, valid };
    if index < p.stress.len() {
        let (m, dim, n) = p.stress[index];
        if let Some(kind) = BULK.iter().position(|b| *b == dim) {
            let cfg = Cfg { hard_numbers: false, fancy_names: 20, max_arity: 12, ..Cfg::base() };
            let mut doc = gen::ObjGen::new(r, &p.d, cfg).bulk_document(kind, n);
            let fault = ["C01", "C02", "C06", "C07", "C12", "C13", "C14", "C23"].contains(&prop) && r.pct(50);
            if fault {
                match r.below(3) {
                    0 => faults::bad_index(r, &p.d, &mut doc),
                    1 => faults::bad_shape(r, &mut doc),
                    _ => faults::bad_statement(r, &p.d, &mut doc),
                }
            }
            return mk(false, gen::plain(&doc), !fault);
        }
        let text = if m { stress::mtl(dim, n, r) } else { stress::obj(dim, n, r) };
        let valid = !dim.starts_with("error_last") && dim != "mixed_last";
        return mk(m, text, valid);
    }
    if index < p.fixed() {
        let i = index - p.stress.len();
        let (name, text) = &p.assets[i % p.assets.len()];
        let m = name.ends_with(".mtl");
        let variant = i / p.assets.len();
        let small = text.len() < 300_000;
        return match variant % 8 {
            0 => mk(m, text.clone(), false),
            1 => mk(m, text.replace('\n', "\r\n"), false),
            _ if !small => mk(m, text[..text.find('\n').map_or(0, |_| {
                let mut k = r.below(text.len().min(400_000));
                while !text.is_char_boundary(k) { k -= 1 }
                k
            })].to_string(), false),
            2 => {
                let d = words(text);
                mk(m, gen::noisy_doc(r, &d, 10), false)
            }
            3 => mk(m, gen::damage(r, text), false),
            4 => {
                let mut d = words(text);
                faults::bad_index(r, &p.d, &mut d);
                mk(m, gen::plain(&d), false)
            }
            5 => {
                let mut d = words(text);
                faults::bad_statement(r, &p.d, &mut d);
                mk(m, gen::noisy_doc(r, &d, 3), false)
            }
            6 => {
                let mut d = words(text);
                faults::bad_shape(r, &mut d);
                mk(m, gen::plain(&d), false)
            }
            _ => {
                let mut d = words(text);
                let o = d.clone();
                gen::mutate(r, &p.d, &mut d, &o);
                mk(m, gen::render(r, &d), false)
            }
        };
    }
    let d = &p.d;
    let base = Cfg::base();
    let valid = |r: &mut Rng, cfg: Cfg| {
        let doc = gen::obj_doc(r, d, cfg);
        let t = gen::render(r, &doc);
        mk(false, t, true)
    };
    let valid_mtl = |r: &mut Rng| {
        let doc = gen::mtl_doc(r, d);
        let t = gen::render(r, &doc);
        mk(true, t, true)
    };
    let faulty = |r: &mut Rng, cfg: Cfg, what: u8| {
        let mut doc = gen::obj_doc(r, d, cfg);
        let n = if r.pct(85) { 1 } else { 2 };
        for _ in 0..n {
            match what {
                0 => faults::bad_index(r, d, &mut doc),
                1 => faults::bad_shape(r, &mut doc),
                _ => faults::bad_statement(r, d, &mut doc),
            }
        }
        let t = gen::render(r, &doc);
        mk(false, t, false)
    };
    let faulty_mtl = |r: &mut Rng| {
        let mut doc = gen::mtl_doc(r, d);
        let n = if r.pct(85) { 1 } else { 2 };
        for _ in 0..n {
            faults::bad_mtl(r, d, &mut doc);
        }
        let t = gen::render(r, &doc);
        mk(true, t, false)
    };
    // Any text at all, for the monitors that need no verdict.
    let anything = |r: &mut Rng| {
        let cfg = Cfg { stmts: (0, 14), objects: (0, 3), ..Cfg::base() };
        match r.below(12) {
            0 | 1 => valid(r, cfg),
            2 => valid_mtl(r),
            3 => faulty(r, cfg, 0),
            4 => faulty(r, cfg, 1),
            5 => faulty(r, cfg, 2),
            6 => faulty_mtl(r),
            7 => {
                let mut doc = gen::obj_doc(r, d, cfg);
                let other = gen::mtl_doc(r, d);
                for _ in 0..r.range(1, 4) {
                    gen::mutate(r, d, &mut doc, &other);
                }
                let t = gen::render(r, &doc);
                mk(false, t, false)
            }
            8 => {
                let mut doc = gen::mtl_doc(r, d);
                let other = gen::obj_doc(r, d, cfg);
                gen::mutate(r, d, &mut doc, &other);
                let t = gen::render(r, &doc);
                mk(true, t, false)
            }
            9 => {
                let m = r.pct(30);
                let doc = if m { gen::mtl_doc(r, d) } else { gen::obj_doc(r, d, cfg) };
                let t = gen::render(r, &doc);
                mk(m, gen::damage(r, &t), false)
            }
            10 => {
                let t = gen::soup(r, d);
                let m = r.pct(30);
                mk(m, t, false)
            }
            _ => {
                let t = gen::garbage(r, d);
                let m = r.pct(30);
                mk(m, t, false)
            }
        }
    };
    let pct = r.below(100);
    match prop {
        "C04" => valid(r, Cfg { w: [40, 30, 30, 2, 2, 2, 3, 3, 5], stmts: (1, 20), ..base }),
        "C05" => valid(
            r,
            Cfg { w: [16, 12, 12, 2, 2, 2, 8, 14, 30], objects: (1, 6), hard_numbers: false, neg_pct: 50, ..base },
        ),
        "C06" => {
            let cfg = Cfg { w: [14, 10, 10, 2, 2, 2, 12, 14, 24], objects: (1, 4), hard_numbers: false, stmts: (1, 14), ..base };
            if pct < 80 {
                faulty(r, cfg, 0)
            } else {
                valid(r, cfg)
            }
        }
        "C07" => {
            let cfg = Cfg { w: [10, 6, 6, 4, 4, 4, 14, 18, 30], objects: (1, 3), hard_numbers: false, stmts: (1, 14), max_arity: 400, ..base };
            match pct {
                0..=54 => valid(r, cfg),
                55..=89 => faulty(r, cfg, 1),
                _ => faulty(r, cfg, 0),
            }
        }
        "C08" => valid(
            r,
            Cfg { w: [6, 2, 2, 30, 8, 8, 14, 14, 14], objects: (1, 4), fancy_names: 20, hard_numbers: false, ..base },
        ),
        "C09" => valid(
            r,
            Cfg { w: [6, 2, 2, 8, 30, 8, 14, 14, 14], objects: (1, 4), fancy_names: 5, hard_numbers: false, ..base },
        ),
        "C10" => valid(
            r,
            Cfg { w: [6, 2, 2, 8, 8, 30, 14, 14, 14], objects: (1, 4), fancy_names: 20, hard_numbers: false, ..base },
        ),
        "C11" => {
            let rel = pct < 45;
            valid(
                r,
                Cfg {
                    w: [12, 6, 6, 12, 12, 12, 10, 10, 14],
                    objects: (0, 7),
                    stmts: (0, 9),
                    only_relative: rel,
                    hard_numbers: false,
                    fancy_names: 15,
                    libs_pct: 50,
                    ..base
                },
            )
        }
        "C12" => {
            if pct < 55 {
                let cfg = Cfg { stmts: (0, 9), objects: (0, 3), ..base };
                match pct % 6 {
                    0 | 1 => valid(r, cfg),
                    2 => valid_mtl(r),
                    3 => faulty(r, cfg, 2),
                    4 => faulty_mtl(r),
                    _ => faulty(r, cfg, 0),
                }
            } else {
                anything(r)
            }
        }
        "C13" | "C14" => {
            let cfg = Cfg { stmts: (0, 12), objects: (0, 3), fancy_names: 25, ..base };
            match pct {
                0..=54 => faulty(r, cfg, 2),
                55..=69 => faulty(r, cfg, 0),
                70..=79 => faulty(r, cfg, 1),
                80..=92 => {
                    let mut doc = gen::obj_doc(r, d, cfg.clone());
                    let other = gen::obj_doc(r, d, cfg);
                    gen::mutate(r, d, &mut doc, &other);
                    let t = gen::render(r, &doc);
                    mk(false, t, false)
                }
                93..=95 => {
                    let doc = gen::obj_doc(r, d, cfg);
                    let t = gen::render(r, &doc);
                    mk(false, gen::damage(r, &t), false)
                }
                96 | 97 => {
                    let t = gen::soup(r, d);
                    mk(false, t, false)
                }
                _ => valid(r, cfg),
            }
        }
        "C15" => valid_mtl(r),
        "C16" => match pct {
            0..=79 => faulty_mtl(r),
            80..=89 => {
                let mut doc = gen::mtl_doc(r, d);
                let other = gen::mtl_doc(r, d);
                gen::mutate(r, d, &mut doc, &other);
                let t = gen::render(r, &doc);
                mk(true, t, false)
            }
            90..=94 => {
                let doc = gen::mtl_doc(r, d);
                let t = gen::render(r, &doc);
                mk(true, gen::damage(r, &t), false)
            }
            _ => valid_mtl(r),
        },
        "C17" => {
            if pct < 70 {
                valid(
                    r,
                    Cfg { w: [6, 2, 2, 24, 4, 24, 14, 4, 8], objects: (1, 5), stmts: (0, 10), fancy_names: 100, hard_numbers: false, libs_pct: 60, ..base },
                )
            } else {
                valid_mtl(r)
            }
        }
        "C23" => {
            let cfg = Cfg { w: [14, 8, 8, 14, 14, 14, 14, 14, 20], objects: (0, 5), hard_numbers: false, ..base };
            match pct {
                0..=44 => valid(r, cfg),
                45..=54 => faulty(r, cfg, 0),
                55..=59 => faulty(r, cfg, 1),
                60..=64 => faulty(r, cfg, 2),
                65..=79 => {
                    let mut doc = gen::obj_doc(r, d, cfg.clone());
                    let other = gen::obj_doc(r, d, cfg);
                    gen::mutate(r, d, &mut doc, &other);
                    let t = gen::render(r, &doc);
                    mk(false, t, false)
                }
                80..=89 => {
                    // several statements on a line
                    let doc = gen::obj_doc(r, d, cfg);
                    let mut t = gen::render(r, &doc);
                    for _ in 0..r.range(1, 4) {
                        if let Some(i) = t.find(['\n', '\r']).map(|_| r.below(t.len())) {
                            if let Some(j) = t.as_bytes()[i..].iter().position(|b| *b == b'\n' || *b == b'\r') {
                                t.replace_range(i + j..i + j + 1, " ");
                            }
                        }
                    }
                    mk(false, t, false)
                }
                90..=94 => {
                    let doc = gen::obj_doc(r, d, cfg);
                    let t = gen::render(r, &doc);
                    mk(false, gen::damage(r, &t), false)
                }
                _ => {
                    let t = gen::soup(r, d);
                    mk(false, t, false)
                }
            }
        }
        "C19" => valid(r, Cfg { stmts: (0, 12), objects: (0, 3), hard_numbers: false, ..base }),
        "C20" => valid(r, Cfg { stmts: (0, 16), objects: (1, 4), ..base }),
        "C21" => {
            if pct < 75 {
                let mut cfg = Cfg { stmts: (0, 25), objects: (0, 6), ..base };
                for w in cfg.w.iter_mut() {
                    *w = if r.pct(25) { 0 } else { r.range(1, 30) };
                }
                cfg.w[0] += 1;
                valid(r, cfg)
            } else {
                valid_mtl(r)
            }
        }
        _ => anything(r),
    }
}
