//! C03: cost of one parse, as a function of text and result size.

use crate::alloc;
use crate::run::num;
use std::fmt::Write;
use wavefront_obj::{mtl, obj};

pub const FAMILIES: [&str; 91] = [
    "v", "v4", "vt", "vn", "f3", "f4", "f_vt", "f_vn", "f_vtn", "f_rel", "f_long", "f_long_vtn", "f_long_rel", "l2",
    "l_long", "p1", "p_long", "g_stmts", "g_stmts_el", "g_line", "g_line_el", "g_square", "g_empty", "s_stmts",
    "s_stmts_el", "usemtl_stmts", "usemtl_el", "usemtl_same_el", "o_empty", "o_vertex", "o_full", "o_el_only_last",
    "mtllib_stmts", "mtllib_line", "name_o", "name_g", "name_usemtl", "name_mtllib", "unicode_names", "comment_long",
    "comments", "comment_tail", "hashes", "newlines", "crlf", "cr", "blank_run", "blanks_between", "backslashes",
    "blank_lines", "tabs_lines", "digits", "digits_small", "index_digits", "one_line", "no_final_newline", "err_word",
    "err_long_word", "err_number", "err_long_number", "err_index", "err_mixed", "err_unterminated_face", "err_face_last",
    "err_smooth", "err_late_lib", "m_materials", "m_full", "m_repeat", "m_maps", "m_long_name", "m_comments",
    "m_newlines", "m_crlf", "m_err_end", "m_err_long", "m_digits", "m_blanks",
    "o_distinct", "g_line_distinct", "mtllib_distinct", "vt_distinct", "vn_distinct", "f_distinct",
    "err_mixed_first", "err_mixed_turn", "err_line_first", "err_point_late", "err_same_line", "f_same", "f_far",
];

fn fill(n: usize, mut f: impl FnMut(usize, &mut String)) -> String {
    let mut s = String::with_capacity(n + 100);
    let mut i = 0;
    while s.len() < n {
        f(i, &mut s);
        i += 1;
    }
    s
}

const TRI: &str = "v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0 0\nvt 1 0\nvt 0 1\nvn 0 0 1\nvn 0 1 0\nvn 1 0 0\n";

pub fn text(fam: &str, n: usize) -> String {
    let tri = |s: String| format!("{TRI}{s}");
    let rep = |p: &'static str| fill(n, move |_, s| s.push_str(p));
    let stmts = || rep("v 1.5 2.5 3.5\nvt 0.5 0.5\n");
    match fam {
        "v" => fill(n, |i, s| { let _ = writeln!(s, "v {i:07}.25 1.5 -2.125"); }),
        "v4" => rep("v 1 2 3 0.5\n"),
        "vt" => rep("vt 0.25 0.5\n"),
        "vn" => rep("vn 0 0 1\n"),
        "f3" => tri(rep("f 1 2 3\n")),
        "f4" => tri(rep("f 1 2 3 1\n")),
        "f_vt" => tri(rep("f 1/1 2/2 3/3\n")),
        "f_vn" => tri(rep("f 1//1 2//2 3//3\n")),
        "f_vtn" => tri(rep("f 1/1/1 2/2/2 3/3/3\n")),
        "f_rel" => fill(n, |_, s| s.push_str("v 1 2 3\nv 1 2 4\nv 1 2 5\nf -1 -2 -3\n")),
        "f_long" => tri(format!("f {}\n", rep("1 2 3 "))),
        "f_long_vtn" => tri(format!("f {}\n", rep("1/1/1 2/2/2 3/3/3 "))),
        "f_long_rel" => tri(format!("f {}\n", rep("-1 -2 -3 "))),
        "l2" => tri(rep("l 1 2\n")),
        "l_long" => tri(format!("l {}\n", rep("1 2 3 "))),
        "p1" => tri(rep("p 1\n")),
        "p_long" => tri(format!("p {}\n", rep("1 2 3 "))),
        "g_stmts" => fill(n, |i, s| { let _ = writeln!(s, "g g{i:07}"); }),
        "g_stmts_el" => tri(fill(n, |i, s| { let _ = writeln!(s, "g g{i:07} h\nf 1 2 3"); })),
        "g_line" => format!("g {}\n", rep("name ")),
        "g_line_el" => format!("{TRI}g {}\nf 1 2 3\n", rep("name ")),
        "g_square" => {
            // k names, k elements: the result has k*k group references
            let k = (n as f64).sqrt() as usize;
            format!("{TRI}g {}\n{}", "n ".repeat(k), "p 1\n".repeat(k))
        }
        "g_empty" => tri(rep("g\np 1\n")),
        "s_stmts" => fill(n, |i, s| { let _ = writeln!(s, "s {i:07}"); }),
        "s_stmts_el" => tri(fill(n, |i, s| { let _ = writeln!(s, "s {i:07}\np 1"); })),
        "usemtl_stmts" => fill(n, |i, s| { let _ = writeln!(s, "usemtl m{i:07}"); }),
        "usemtl_el" => tri(fill(n, |i, s| { let _ = writeln!(s, "usemtl m{i:07}\np 1"); })),
        "usemtl_same_el" => tri(rep("usemtl m\nf 1 2 3\n")),
        "o_empty" => rep("o x\n"),
        "o_vertex" => rep("o x\nv 1 2 3\n"),
        "o_full" => rep("o x\nv 1 2 3\nvt 1\nvn 1 0 0\ng a\ns 1\nusemtl m\nf -1/-1/-1 -1/-1/-1 -1/-1/-1\np -1\n"),
        "o_el_only_last" => format!("{}p -1\n", rep("o x\nv 1 2 3\n")),
        "mtllib_stmts" => rep("mtllib a.mtl\n"),
        "mtllib_line" => format!("mtllib {}\n", rep("a.mtl ")),
        "name_o" => format!("o {}\nv 1 2 3\n", rep("n")),
        "name_g" => format!("{TRI}g {}\np 1\n", rep("n")),
        "name_usemtl" => format!("{TRI}usemtl {}\np 1\n", rep("n")),
        "name_mtllib" => format!("mtllib {}\n", rep("n")),
        "unicode_names" => rep("o \u{65e5}\u{672c}\u{e9}\ng \u{e9}\nusemtl \u{1f600}\n"),
        "comment_long" => format!("o x\n#{}\nv 1 2 3\n", rep("c ")),
        "comments" => rep("# comment\n"),
        "comment_tail" => rep("v 1 2 3 # comment\n"),
        "hashes" => rep("#"),
        "newlines" => rep("\n"),
        "crlf" => rep("v 1 2 3\r\n\r\n"),
        "cr" => rep("v 1 2 3\r\r"),
        "blank_run" => format!("o x\nv 1 2 {}3\n", rep(" ")),
        "blanks_between" => rep("v  \t 1 \\ 2    3   \n"),
        "backslashes" => format!("o x\n{}\nv 1 2 3\n", rep("\\")),
        "blank_lines" => rep("   \n"),
        "tabs_lines" => rep("\t\n# x\n"),
        "digits" => format!("v 0.{} 2 3\n", rep("1234567890")),
        "digits_small" => rep("v 0.123456789012345678901234567890 1e-300 123456789012345678901234567890.5\n"),
        "index_digits" => format!("{TRI}p {}1\n", rep("0")),
        "one_line" => rep("v 1 2 3 4 vt 1 1 1 "),
        "no_final_newline" => format!("{}v 1 2 3", stmts()),
        "err_word" => format!("{}bogus 1 2\n", stmts()),
        "err_long_word" => rep("x"),
        "err_number" => format!("{}v 1 x 3\n", stmts()),
        "err_long_number" => format!("v 1 {}x 3\n", rep("1")),
        "err_index" => format!("{TRI}f {} 99\n", rep("1 2 3 ")),
        "err_mixed" => format!("{TRI}f {} 1/1\n", rep("1 2 3 ")),
        "err_mixed_first" => format!("{TRI}f 1 {}\n", rep("1/1 2/2 ")),
        "err_mixed_turn" => format!("{TRI}f {}\n", rep("1/1 2//2 3 1/1/1 ")),
        "err_line_first" => format!("{TRI}l 1/1 {}\n", rep("1 2 ")),
        "err_point_late" => format!("{TRI}p {} 0\n", rep("1 -2 ")),
        "err_same_line" => tri(rep("f 1 2 3 ").replace('f', "") + " f 1"),
        "f_same" => format!("{TRI}f {}\n", rep("1 ")),
        "f_far" => format!("v 1 2 3\nf {}\n", rep("1 1 1 -1 ")),
        "err_unterminated_face" => format!("{TRI}f {} x", rep("1 2 3 ")),
        "err_face_last" => format!("{TRI}{}f 1 2\n", rep("f 1 2 3\n")),
        "err_smooth" => format!("{}s x\n", stmts()),
        "err_late_lib" => format!("{}mtllib x\n", stmts()),
        "m_materials" => fill(n, |i, s| { let _ = writeln!(s, "newmtl m{i:07}"); }),
        "m_full" => fill(n, |i, s| { let _ = writeln!(s, "newmtl m{i:07}\nKa 1 0.5 0\nKd 1 0 0\nKs 0 0 0\nKe 0 0 0\nNs 10\nNi 1.5\nd 0.5\nillum 2\nmap_Ka a\nmap_Kd b\nmap_Ks c\nmap_Ke d\nmap_Ns e\nmap_Bump f\ndisp g\nmap_d h\ndecal i{i:07}"); }),
        "m_repeat" => format!("newmtl a\n{}", rep("Kd 1 0 0\nNs 5\nd 1\nillum 1\n")),
        "m_maps" => format!("newmtl a\n{}", rep("map_Kd file.png\nmap_Ka other.png\ndisp x\n")),
        "m_long_name" => format!("newmtl {}\nKd 1 1 1\n", rep("n")),
        "m_comments" => rep("# comment\n"),
        "m_newlines" => rep("\n"),
        "m_crlf" => format!("newmtl a\r\n{}", rep("Kd 1 0 0\r\n\r\n")),
        "m_err_end" => format!("{}Kd 1\n", rep("newmtl a\nKd 1 0 0\n")),
        "m_err_long" => format!("newmtl a\nKd {}x 1 1\n", rep("1")),
        "m_digits" => format!("newmtl a\nKd 0.{} 1 1\n", rep("1234567890")),
        "m_blanks" => format!("newmtl a\nKd 1 {} 1 1\n", rep(" \t")),
        "o_distinct" => fill(n, |i, s| { let _ = writeln!(s, "o n{i:07}\nv 1 2 3"); }),
        "g_line_distinct" => format!("{TRI}g {}\np 1\n", fill(n, |i, s| { let _ = write!(s, "n{i:07} "); })),
        "mtllib_distinct" => fill(n, |i, s| { let _ = writeln!(s, "mtllib n{i:07}.mtl"); }),
        "vt_distinct" => fill(n, |i, s| { let _ = writeln!(s, "vt {i:07}.5 {i:07}.25"); }),
        "vn_distinct" => fill(n, |i, s| { let _ = writeln!(s, "vn 0 {i:07}.5 {i:07}.25"); }),
        "f_distinct" => fill(n, |i, s| { let _ = writeln!(s, "v 1 2 3\nf {:07} {:07} {:07}", i + 1, i / 2 + 1, i / 3 + 1); }),
        _ if fam.starts_with("pair:") || fam.starts_with("m_pair:") => pair(fam, n),
        _ => repeated(fam, n),
    }
}

// ------------------------------------------------ two kinds of things in bulk

const OBJ_UNITS: [&str; 34] = [
    "v", "vd", "vt", "vn", "g_same", "g_new", "g_long", "g_many", "g_none", "s_same", "s_new", "usemtl_same", "usemtl_new",
    "usemtl_long", "p", "p_many", "l", "l_vt", "l_many", "f", "f4", "f_vt", "f_vn4", "f_vtn", "f_many", "f_vtn_many", "o_bare", "o_new",
    "o_long", "o_full", "blank", "comment", "comment_long", "crlf",
];
/// Only at the start of a file.
const OBJ_FIRST: [&str; 4] = ["mtllib_same", "mtllib_new", "mtllib_long", "mtllib_many"];
const MTL_UNITS: [&str; 15] = [
    "newmtl_same", "newmtl_new", "newmtl_long", "newmtl_full", "Kd", "Ks_new", "Ns", "illum", "map_same", "map_new", "map_long", "bump_new",
    "blank", "comment", "comment_long",
];

/// The `i`-th statement of a kind; `l` is the length of what is long.
fn unit(kind: &str, i: usize, l: usize, s: &mut String) {
    let many = |s: &mut String, kw: &str, w: &str| {
        s.push_str(kw);
        for _ in 0..l.max(3) {
            s.push(' ');
            s.push_str(w);
        }
        s.push('\n');
    };
    let _ = match kind {
        "v" => writeln!(s, "v 1 2 3"),
        "vd" => writeln!(s, "v {i:07} 2 3"),
        "vt" => writeln!(s, "vt {i:07} 0.5"),
        "vn" => writeln!(s, "vn 0 {i:07} 1"),
        "g_same" => writeln!(s, "g a"),
        "g_new" => writeln!(s, "g g{i:07}"),
        "g_long" => writeln!(s, "g {i:0l$}"),
        "g_many" => writeln!(s, "g a{i:07} b{i:07} c{i:07} d e f"),
        "g_none" => writeln!(s, "g"),
        "s_same" => writeln!(s, "s 1"),
        "s_new" => writeln!(s, "s {i:07}"),
        "usemtl_same" => writeln!(s, "usemtl a"),
        "usemtl_new" => writeln!(s, "usemtl m{i:07}"),
        "usemtl_long" => writeln!(s, "usemtl {i:0l$}"),
        "p" => writeln!(s, "p -1"),
        "p_many" => {
            many(s, "p", "-1");
            Ok(())
        }
        "l" => writeln!(s, "l -1 -1"),
        "l_vt" => writeln!(s, "l -1/-1 -1/-1"),
        "l_many" => {
            many(s, "l", "-1");
            Ok(())
        }
        "f" => writeln!(s, "f -1 -1 -1"),
        "f4" => writeln!(s, "f -1 -1 -1 -1 -1"),
        "f_vt" => writeln!(s, "f -1/-1 -1/-1 -1/-1"),
        "f_vn4" => writeln!(s, "f -1//-1 -1//-1 -1//-1 -1//-1"),
        "f_vtn" => writeln!(s, "f -1/-1/-1 -1/-1/-1 -1/-1/-1"),
        "f_many" => {
            many(s, "f", "-1");
            Ok(())
        }
        "f_vtn_many" => {
            many(s, "f", "-1/-1/-1");
            Ok(())
        }
        "o_bare" => writeln!(s, "o a\nv 1 2 3\nvt 1\nvn 1 0 0"),
        "o_new" => writeln!(s, "o o{i:07}\nv 1 2 3\nvt 1\nvn 1 0 0"),
        "o_long" => writeln!(s, "o {i:0l$}\nv 1 2 3\nvt 1\nvn 1 0 0"),
        "o_full" => writeln!(s, "o a\nv 1 2 3\nvt 1\nvn 1 0 0\ng a b\ns 3\nusemtl m\nf -1/-1/-1 -1/-1/-1 -1/-1/-1"),
        "blank" => writeln!(s, "  \n"),
        "comment" => writeln!(s, "# {i:07}"),
        "comment_long" => writeln!(s, "# {i:0l$}"),
        "crlf" => write!(s, "\r\n"),
        "mtllib_same" => writeln!(s, "mtllib a.mtl"),
        "mtllib_new" => writeln!(s, "mtllib m{i:07}.mtl"),
        "mtllib_long" => writeln!(s, "mtllib {i:0l$}"),
        "mtllib_many" => writeln!(s, "mtllib a{i:07} b{i:07} c{i:07} d e"),
        "newmtl_same" => writeln!(s, "newmtl a"),
        "newmtl_new" => writeln!(s, "newmtl m{i:07}"),
        "newmtl_long" => writeln!(s, "newmtl {i:0l$}"),
        "newmtl_full" => writeln!(s, "newmtl m{i:07}\nKa 1 0.5 0\nKd 1 0 0\nKs 0 0 1\nNs 10\nNi 1.5\nd 0.5\nillum 2\nmap_Kd b{i:07}"),
        "Kd" => writeln!(s, "Kd 1 0.5 0.25"),
        "Ks_new" => writeln!(s, "Ks 0.{i:07} 0.5 0.25"),
        "Ns" => writeln!(s, "Ns {i:07}"),
        "illum" => writeln!(s, "illum {}", i % 3),
        "map_same" => writeln!(s, "map_Kd a.png"),
        "map_new" => writeln!(s, "map_Kd a{i:07}.png"),
        "map_long" => writeln!(s, "map_Ks {i:0l$}"),
        "bump_new" => writeln!(s, "bump a{i:07}.png"),
        _ => panic!("unknown unit {kind}"),
    };
}

/// `pair:<a>,<b>,<mode>,<l>`: half the text of one kind, then half of another;
/// or both in turn; or the second kind once, at the end or in an error.
fn pair(fam: &str, n: usize) -> String {
    let m = fam.starts_with("m_");
    let p: Vec<&str> = fam.split_once(':').unwrap().1.split(',').collect();
    let (a, b, mode, l) = (p[0], p[1], p[2], p[3].parse::<usize>().expect("length"));
    let head = if m { "newmtl first\n" } else if a.starts_with("mtllib") { "" } else { TRI };
    let mut s = String::with_capacity(n + 1000);
    s.push_str(head);
    let mut i = 0;
    let bulk = |s: &mut String, k: &[&str], n: usize, i: &mut usize| {
        while s.len() < n {
            for x in k {
                unit(x, *i, l, s);
            }
            *i += 1;
        }
    };
    match mode {
        "turn" => bulk(&mut s, &[a, b], n, &mut i),
        "once" => {
            bulk(&mut s, &[a], n, &mut i);
            unit(b, i, l, &mut s);
        }
        "err" => {
            bulk(&mut s, &[a], n / 2, &mut i);
            bulk(&mut s, &[b], n, &mut i);
            s.push_str(if m { "Kd 1 x 2\n" } else { "f 0 1 x\n" });
        }
        _ => {
            bulk(&mut s, &[a], n / 2, &mut i);
            if a.starts_with("mtllib") {
                s.push_str(TRI);
            }
            bulk(&mut s, &[b], n, &mut i);
        }
    }
    s
}

/// All pair families; `sizes` are numbers new in the source.
fn pairs(sizes: &[usize]) -> Vec<String> {
    let mut out = vec![];
    let mut all = |m: &str, units: &[&str], first: &[&str], l: usize, only_long: bool| {
        let long = |u: &str| u.ends_with("_long") || u == "p_many" || u == "l_many" || u.starts_with("f_") && u.ends_with("many");
        for a in units.iter().chain(first) {
            for b in units {
                if only_long && !long(a) && !long(b) {
                    continue;
                }
                out.push(format!("{m}pair:{a},{b},seq,{l}"));
                if !first.contains(a) {
                    out.push(format!("{m}pair:{a},{b},turn,{l}"));
                    if !only_long && a.len() + b.len() & 1 == 1 {
                        out.push(format!("{m}pair:{a},{b},err,{l}"));
                    }
                }
            }
        }
    };
    all("", &OBJ_UNITS, &OBJ_FIRST, 48, false);
    all("m_", &MTL_UNITS, &[], 48, false);
    for l in sizes {
        all("", &OBJ_UNITS, &OBJ_FIRST, *l, true);
        all("m_", &MTL_UNITS, &[], *l, true);
    }
    out
}

struct Cost {
    len: u64,
    result: u64,
    total: u64,
    peak: u64,
    work: u64,
    ns: u64,
}

fn cost(m: bool, t: &str, reps: usize) -> Cost {
    let mut c = Cost { len: t.len() as u64, result: 0, total: 0, peak: 0, work: 0, ns: u64::MAX };
    for _ in 0..reps {
        let (mark, w, start) = (alloc::mark(), crate::guided::comparisons(), std::time::Instant::now());
        macro_rules! go {
            ($f:path, $size:path) => {{
                let r = $f(t);
                c.ns = c.ns.min(start.elapsed().as_nanos() as u64);
                c.work = crate::guided::comparisons() - w;
                let u = alloc::since(&mark);
                (c.total, c.peak) = (u.total, u.peak);
                c.result = r.as_ref().map_or_else(|e| e.to_string().len() as u64, $size);
            }};
        }
        if m {
            go!(mon_region_mtl, mtl_size)
        } else {
            go!(mon_region_obj, obj_size)
        }
    }
    c
}

/// Measure many families in one process and print those that look superlinear:
/// `mon screen shard=<k> of=<m> n=<bytes> grow=<factor> random=<count>`.
pub fn screen(args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let repo = crate::run::opt(args, "repo").unwrap_or("/repo");
    let d = crate::gen::Dict::from_sources(&format!("{repo}/src"));
    let mut sizes: Vec<usize> = d.new_sizes.iter().filter(|&&s| (8..=2000).contains(&s)).map(|s| s + 1).collect();
    sizes.truncate(4);
    let mut fams = pairs(&sizes);
    let seed = num(args, "seed", 1);
    for kind in ["rep", "repd", "wide", "tall", "m_rep", "m_repd", "m_tall"] {
        fams.extend((0..num(args, "random", 100)).map(|i| format!("{kind}:{}", seed * 1000 + 500 + i)));
    }
    let (shard, of) = (num(args, "shard", 0) as usize, num(args, "of", 1) as usize);
    let (n1, n2) = (num(args, "n", 10_000) as usize, (num(args, "n", 10_000) * num(args, "grow", 8)) as usize);
    let (mut count, mut comparisons, mut worst) = (0, 0, (0.0, String::new()));
    for fam in fams.iter().skip(shard).step_by(of) {
        // Known to whoever ends this process.
        eprintln!("{fam}");
        let m = fam.starts_with("m_");
        let Ok((a, b)) = crate::obs::guarded(|| (cost(m, &text(fam, n1), 3), cost(m, &text(fam, n2), 3))) else { continue };
        count += 1;
        comparisons += a.work + b.work;
        let per = |c: &Cost, x: u64| x as f64 / (c.len + c.result) as f64;
        let g = |x: u64, y: u64| if x == 0 { 0.0 } else { per(&b, y) / per(&a, x) };
        let (work, total, peak, ns) = (g(a.work, b.work), g(a.total, b.total), g(a.peak, b.peak), g(a.ns, b.ns));
        if work > worst.0 {
            worst = (work, fam.clone());
        }
        if work > 1.45 || ns > 2.5 || (total > 2.0 && b.total > 200_000) || (peak > 2.0 && b.peak > 200_000) {
            println!("SUSPECT {} {fam}", work.max(ns / 2.0).max(total).max(peak));
        }
    }
    println!("{{\"families\": {count}, \"of\": {}, \"comparisons\": {comparisons}, \"worst\": {:.3}, \"worst_family\": \"{}\"}}", fams.len(), worst.0, worst.1);
    0
}

/// `rep:<seed>`: a random well-formed block, repeated; `wide:<seed>`: one line
/// of it, with its operands repeated; `tall:<seed>`: one word, blank or comment
/// of it, with its characters repeated. The growing part is what counts.
fn repeated(fam: &str, n: usize) -> String {
    use crate::gen;
    let (kind, seed) = fam.split_once(':').unwrap_or_else(|| panic!("unknown family {fam}"));
    let kind = kind.trim_start_matches("m_");
    let mut r = crate::rng::Rng::new(&[seed.parse().expect("seed"), 3]);
    let d = gen::Dict::default();
    let doc = if fam.starts_with("m_") {
        loop {
            let doc = gen::mtl_doc(&mut r, &d);
            if !doc.is_empty() {
                break doc;
            }
        }
    } else {
        let mut cfg = gen::Cfg { only_relative: true, libs_pct: 0, objects: (1, 3), stmts: (1, 12), max_arity: 12, fancy_names: 30, ..gen::Cfg::base() };
        for w in cfg.w.iter_mut() {
            *w = if r.pct(30) { 0 } else { r.range(1, 20) };
        }
        cfg.w[0] += 1;
        loop {
            let doc = gen::obj_doc(&mut r, &d, cfg.clone());
            if !doc.is_empty() {
                break doc;
            }
        }
    };
    let tail = match r.below(4) {
        0 => "bogus 1\n",
        1 => "f 0 0 0\n",
        _ => "",
    };
    match kind {
        "repd" => {
            // every name and number of the repeated block is new
            let mut s = String::new();
            let mut i = 0usize;
            while s.len() < n {
                for l in &doc {
                    for (k, w) in l.iter().enumerate() {
                        let named = matches!(l[0].as_str(), "o" | "g" | "usemtl" | "newmtl" | "bump" | "disp" | "decal") || l[0].starts_with("map_");
                        let _ = match l[0].as_str() {
                            _ if k == 0 => write!(s, "{w}"),
                            _ if named => write!(s, " {w}_{i:07}"),
                            "v" | "vt" | "vn" if k == 1 => write!(s, " {i:07}.5"),
                            "s" => write!(s, " {i:07}"),
                            _ => write!(s, " {w}"),
                        };
                    }
                    s.push('\n');
                }
                i += 1;
            }
            s + tail
        }
        "rep" => {
            let l: Vec<Vec<&str>> = doc.iter().map(|l| l.iter().map(|s| s.as_str()).collect()).collect();
            let block = if r.pct(50) { gen::plain(&doc) } else { gen::noisy(&mut r, &l, true, 15).0 };
            let mut s = String::new();
            while s.len() < n {
                s.push_str(&block);
            }
            s + tail
        }
        "wide" => {
            let i = r.below(doc.len());
            let ops: String = doc[i][1..].iter().map(|w| format!(" {w}")).collect();
            let mut s = gen::plain(&doc[..i].to_vec());
            s.push_str(&doc[i][0]);
            if (doc[i][0] == "f" || doc[i][0] == "l") && r.pct(30) {
                // one operand of another form first
                s.push_str(if doc[i][1].contains('/') { " -1" } else { " -1/-1" });
            }
            let room = n + s.len();
            while s.len() < room {
                s.push_str(&ops);
                if ops.is_empty() {
                    s.push_str(" x");
                }
            }
            s.push('\n');
            s + tail
        }
        _ => {
            let i = r.below(doc.len());
            let mut s = gen::plain(&doc[..i].to_vec());
            let j = r.below(doc[i].len());
            let fill = *r.pick(&[" ", "\t", "\\", "x", "0", "1", "/", "-", "#", "\u{e9}", "\n", "\r\n", "\r", " #\n", "1/", "1 "]);
            for (k, w) in doc[i].iter().enumerate() {
                if k > 0 {
                    s.push(' ');
                }
                s.push_str(w);
                if k == j {
                    s.push_str(&fill.repeat(n / fill.len()));
                }
            }
            s.push('\n');
            s + tail
        }
    }
}

fn obj_size(s: &obj::ObjectSet) -> u64 {
    let mut n = s.material_libraries.iter().map(|l| 24 + l.len()).sum::<usize>();
    for o in &s.objects {
        n += 216 + o.name.len();
        n += o.vertex_set.len() * 32 + o.texture_vertex_set.len() * 24 + o.normal_vertex_set.len() * 24;
        n += o.group_set.iter().map(|g| 24 + g.0.len()).sum::<usize>();
        n += o.smoothing_group_set.len() * 8 + o.element_set.len() * 104;
        n += o.shape_set.iter().map(|s| 40 + 8 * s.groups.len()).sum::<usize>();
        n += o.geometry_set.iter().map(|g| 48 + g.material_name.as_ref().map_or(0, |m| m.len()) + 8 * g.shapes.len()).sum::<usize>();
    }
    n as u64
}
fn mtl_size(s: &mtl::MaterialSet) -> u64 {
    s.materials
        .iter()
        .map(|m| {
            400 + m.name.len() as u64 + crate::obs::material(m).maps.iter().flatten().map(|s| s.len() as u64).sum::<u64>()
        })
        .sum()
}

#[no_mangle]
#[inline(never)]
pub fn mon_region_obj(t: &str) -> Result<obj::ObjectSet, obj::ParseError> {
    std::hint::black_box(obj::parse(std::hint::black_box(t)))
}
#[no_mangle]
#[inline(never)]
pub fn mon_region_mtl(t: &str) -> Result<mtl::MaterialSet, mtl::ParseError> {
    std::hint::black_box(mtl::parse(std::hint::black_box(t)))
}

/// `mon cost list`, or `mon cost <family> n=<bytes> [time=1]`.
pub fn main(args: &[String]) -> i32 {
    if args[0] == "list" {
        println!("{}", FAMILIES.join("\n"));
        return 0;
    }
    let fam = args[0].as_str();
    let t = text(fam, num(args, "n", 10_000) as usize);
    if let Some(p) = crate::run::opt(args, "save") {
        let c = crate::checks::Case { mtl: fam.starts_with("m_"), text: t.clone(), aux: 0, valid: false };
        crate::run::save(p, "C03", &c, fam);
    }
    let reps = num(args, "reps", 1);
    let mut best = u128::MAX;
    let mut used = None;
    let mut result = 0;
    let mut ok = false;
    for _ in 0..reps {
        let m = alloc::mark();
        let start = std::time::Instant::now();
        if fam.starts_with("m_") {
            let r = mon_region_mtl(&t);
            best = best.min(start.elapsed().as_nanos());
            used = Some(alloc::since(&m));
            ok = r.is_ok();
            result = r.as_ref().map_or_else(|e| e.to_string().len() as u64, mtl_size);
        } else {
            let r = mon_region_obj(&t);
            best = best.min(start.elapsed().as_nanos());
            used = Some(alloc::since(&m));
            ok = r.is_ok();
            result = r.as_ref().map_or_else(|e| e.to_string().len() as u64, obj_size);
        }
    }
    let u = used.unwrap();
    println!(
        "{{\"family\": \"{fam}\", \"len\": {}, \"result\": {result}, \"ok\": {ok}, \"alloc_total\": {}, \"alloc_peak\": {}, \"alloc_count\": {}, \"ns\": {best}}}",
        t.len(),
        u.total,
        u.peak,
        u.count
    );
    0
}
