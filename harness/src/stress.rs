//! Boundary-size documents: one dimension grown to exactly `n`.

use crate::gen::Dict;
use crate::rng::Rng;
use std::fmt::Write;

pub const OBJ_DIMS: [&str; 30] = [
    "vertices", "tvertices", "normals", "face", "facevtn", "line", "points", "faces", "groupnames", "groupstmts",
    "smoothstmts", "materials", "objects", "libs", "name", "comment", "blanks", "lines", "commentlines", "digits",
    "indexdigits", "elements_before_group", "far_relative", "error_last", "error_last_index", "emptyobjects", "crlf",
    "unicode_name", "mixed_last", "late_texture",
];
pub const MTL_DIMS: [&str; 9] =
    ["materials", "repeats", "name", "comment", "lines", "digits", "maps", "error_last", "blanks"];

pub fn sizes(d: &Dict, thorough: bool) -> Vec<usize> {
    let mut s = vec![];
    for k in 5..=16 {
        let p = 1usize << k;
        s.extend([p - 1, p, p + 1]);
    }
    s.extend([99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001, 99999, 100000, 100001]);
    if thorough {
        s.extend([131071, 131072, 131073, 262143, 262144, 262145, 524288, 999999, 1000000, 1000001]);
    }
    s.extend(d.sizes.iter().copied().filter(|&x| x > 6 && x <= if thorough { 2_000_000 } else { 200_000 }));
    s.extend(d.new_sizes.iter().copied().filter(|&x| x > 200_000 && x <= 1_100_000).take(9));
    s.sort_unstable();
    s.dedup();
    s
}

/// A well-formed triangle's worth of data.
fn tri(s: &mut String) {
    s.push_str("v 0 0 0.5\nv 1 0 0\nv 0 1 0 2\nvt 0 0.5\nvt 1\nvt 0 1 0.25\nvn 0 0 1\nvn 0 1 0\nvn 1 0 0\n");
}

pub fn obj(dim: &str, n: usize, r: &mut Rng) -> String {
    let mut s = String::new();
    let ix = |r: &mut Rng, n: usize| if r.pct(50) { r.range(1, n) as i64 } else { -(r.range(1, n) as i64) };
    match dim {
        "vertices" | "tvertices" | "normals" | "far_relative" => {
            let (kw, fix): (&str, fn(i64) -> String) = match dim {
                "tvertices" => ("vt", |i| format!("4/{i}")),
                "normals" => ("vn", |i| format!("4//{i}")),
                _ => ("v", |i| format!("{i}")),
            };
            tri(&mut s);
            s.push_str("o many\n");
            if kw != "v" {
                s.push_str("v 1 2 3\n");
            }
            for i in 0..n {
                let _ = writeln!(s, "{kw} {i} 0.5 {i}.25");
            }
            let last = 3 + n as i64;
            for &i in &[4, last, last - 1, last / 2 + 2, -1, -(n as i64), -(n as i64) / 2 - 1] {
                if (i > 3 && i <= last) || (i < 0 && -i <= n as i64) {
                    let w = fix(i);
                    let _ = writeln!(s, "f {w} {w} {w}");
                }
            }
            for _ in 0..5 {
                let a = -(r.range(1, n) as i64);
                let b = 3 + r.range(1, n) as i64;
                let _ = writeln!(s, "f {} {} {}", fix(a), fix(b), fix(a));
            }
            s.push_str("o after\nv 9 9 9\nvt 9\nvn 9 9 9\np -1\nf -1/-1/-1 -1/-1/-1 -1/-1/-1\n");
            let _ = writeln!(s, "p {}", if kw == "v" { 3 + n + 1 } else { 5 });
        }
        "face" | "facevtn" | "line" | "points" => {
            s.push_str("o x\n");
            tri(&mut s);
            s.push_str("s 3\ng a b\nusemtl m\n");
            s.push_str(match dim {
                "line" => "l",
                "points" => "p",
                _ => "f",
            });
            for _ in 0..n.max(3) {
                let a = ix(r, 3);
                if dim == "facevtn" {
                    let _ = write!(s, " {}/{}/{}", a, ix(r, 3), ix(r, 3));
                } else {
                    let _ = write!(s, " {a}");
                }
            }
            s.push_str("\ns off\ng c\nusemtl k\nf 1 2 3\n");
        }
        "faces" | "elements_before_group" => {
            s.push_str("o x\n");
            tri(&mut s);
            for _ in 0..n {
                let (a, b, c) = (ix(r, 3), ix(r, 3), ix(r, 3));
                let _ = match r.below(5) {
                    0 => writeln!(s, "f {a} {b} {c}"),
                    1 => writeln!(s, "f {a}/{b} {b}/{c} {c}/{a}"),
                    2 => writeln!(s, "f {a}//{b} {b}//{c} {c}//{a}"),
                    3 => writeln!(s, "l {a} {b}"),
                    _ => writeln!(s, "p {a}"),
                };
            }
            s.push_str("g late\ns 7\nusemtl late\nf 1 2 3\np 1 2\ng other\nl 1 2 3\n");
        }
        "groupnames" => {
            tri(&mut s);
            s.push('g');
            for i in 0..n {
                let _ = write!(s, " g{i}");
            }
            s.push_str("\nf 1 2 3\np 1\ng last\np 1\n");
        }
        "groupstmts" | "smoothstmts" | "materials" => {
            s.push_str("o first\n");
            tri(&mut s);
            let pre = r.pct(50);
            if pre {
                s.push_str("p 1\n");
            }
            for i in 0..n {
                let _ = match dim {
                    "groupstmts" => writeln!(s, "g g{i} h{}", i % 7),
                    "smoothstmts" => writeln!(s, "s {}", i + 1),
                    _ => writeln!(s, "usemtl m{}", i % 1000),
                };
                if r.pct(60) || i + 2 > n {
                    let _ = writeln!(s, "p {}", ix(r, 3));
                }
            }
            s.push_str("f 1 2 3\no second\nv 1 2 3\np -1\n");
        }
        "objects" => {
            for i in 0..n {
                let _ = writeln!(s, "o obj{i}\nv {i} 0 1");
                if i % 3 == 0 {
                    let _ = writeln!(s, "vt 0.5\ng g{i}\ns 1\nusemtl m\nl {0}/-1 -1/{1}", i + 1, i / 3 + 1);
                }
                let _ = writeln!(s, "p {} -1", i + 1);
            }
        }
        "emptyobjects" => {
            for i in 0..n {
                let _ = writeln!(s, "o obj{i}");
            }
            s.push_str("v 1 2 3\np 1\n");
        }
        "libs" => {
            if r.pct(50) {
                s.push_str("mtllib");
                for i in 0..n {
                    let _ = write!(s, " lib{i}.mtl");
                }
                s.push('\n');
            } else {
                for i in 0..n {
                    let _ = writeln!(s, "mtllib lib{i}.mtl");
                }
            }
            s.push_str("o x\nv 1 2 3\n");
        }
        "name" | "unicode_name" => {
            let nm: String = if dim == "name" {
                (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
            } else {
                let mut t = String::new();
                while t.len() < n {
                    t.push(['é', 'x', '日', '😀'][r.below(4)]);
                }
                t
            };
            let _ = writeln!(s, "mtllib {nm}1 {nm}2");
            let _ = writeln!(s, "o {nm}\nv 1 2 3\ng {nm} b{nm}\nusemtl {nm}z\np 1");
        }
        "comment" => {
            let c: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let _ = writeln!(s, "#{c}\no x\nv 1 2 3 #{c}\n#{c}\np 1#{c}");
        }
        "blanks" => {
            let c: String = (0..n).map(|_| *r.pick(&[' ', '\t', '\\'])).collect();
            let _ = writeln!(s, "{c}o{c}x{c}\n{c}v 1{c}2 3\n{c}p{c}1{c}");
        }
        "lines" | "commentlines" | "crlf" => {
            s.push_str("o x\nv 1 2 3\n");
            for _ in 0..n {
                s.push_str(match dim {
                    "lines" => "\n",
                    "crlf" => "\r\n",
                    _ => "# c\n",
                });
            }
            s.push_str("p 1\np -1\n");
        }
        "digits" => {
            let z: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            let o = "0".repeat(n);
            let _ = writeln!(s, "v 0.{z} 1.{o}5 0{o}.5 1.{o}\nvt 0.{o}1e{n}\nvn 1{o}e-{n} -0.{z} 2");
        }
        "indexdigits" => {
            let o = "0".repeat(n);
            tri(&mut s);
            let _ = writeln!(s, "f {o}1 -{o}2 3\np {o}3\ns {o}4\nf 1/{o}2/-{o}1 2/1/{o}1 3/3/3");
        }
        "error_last" | "error_last_index" => {
            s.push_str("o x\nv 1 2 3\n");
            for i in 0..n {
                s.push_str(match i % 4 {
                    0 => "p 1\n",
                    1 => "\n",
                    2 => "# c\r\n",
                    _ => "g a b # x\n",
                });
            }
            s.push_str(if dim == "error_last" { "v 1 2\n" } else { "p 1 2\n" });
        }
        "mixed_last" => {
            tri(&mut s);
            s.push('f');
            for _ in 0..n.max(3) {
                let _ = write!(s, " {}", ix(r, 3));
            }
            let _ = writeln!(s, " 1/1");
        }
        "late_texture" => {
            // texture and normal data only in a late object
            for i in 0..n.min(20000) {
                let _ = writeln!(s, "o a{i}\nv 1 2 3\np -1");
            }
            s.push_str("o t\nv 1 1 1\nvt 0.5 0.5\nvn 1 0 0\nf -1/1/1 -1/-1/-1 -1/1/-1\nf -1//1 -1//1 -1//1\n");
        }
        _ => unreachable!(),
    }
    s
}

pub fn mtl(dim: &str, n: usize, r: &mut Rng) -> String {
    let mut s = String::new();
    match dim {
        "materials" => {
            for i in 0..n {
                let _ = writeln!(s, "newmtl m{i}");
                let _ = match r.below(6) {
                    0 => writeln!(s, "Ka {i} 0.5 1\nillum {}", i % 3),
                    1 => writeln!(s, "Ns {i}\nmap_Kd t{i}.png"),
                    2 => writeln!(s, "Ni 1.{i}\nd 0.{i}"),
                    3 => writeln!(s, "Ke 0 {i} 0\nKs 1 1 {i}\nbump b{i}"),
                    _ => Ok(()),
                };
            }
        }
        "repeats" => {
            s.push_str("newmtl a\n");
            for i in 0..n {
                let _ = match i % 5 {
                    0 => writeln!(s, "Kd {i} {i} 0.5"),
                    1 => writeln!(s, "map_Kd f{i}"),
                    2 => writeln!(s, "Ns {i}"),
                    3 => writeln!(s, "Ni {i}"),
                    _ => writeln!(s, "illum {}", i % 3),
                };
            }
        }
        "name" => {
            let nm: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let _ = writeln!(s, "newmtl {nm}\nmap_Kd {nm}.png\nnewmtl b{nm}\ndisp {nm}");
        }
        "comment" => {
            let c: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let _ = writeln!(s, "#{c}\nnewmtl x#{c}\n#{c}\nKa 1 2 3 #{c}\nd 0.5");
        }
        "lines" => {
            s.push_str("newmtl a\n");
            for i in 0..n {
                s.push_str(["\n", "\r\n", "# c\n", " \n"][i % 4]);
            }
            s.push_str("d 0.5\n");
        }
        "blanks" => {
            let c: String = (0..n).map(|_| *r.pick(&[' ', '\t', '\\'])).collect();
            let _ = writeln!(s, "{c}newmtl{c}x{c}\n{c}Ka 1{c}2 3\n{c}d{c}1{c}");
        }
        "digits" => {
            let z: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            let o = "0".repeat(n);
            let _ = writeln!(s, "newmtl a\nKa 0.{z} 1.{o}5 0{o}.5\nNs 1{o}e-{n}\nd 0.{o}1e{n}\nillum {o}1");
        }
        "maps" => {
            s.push_str("newmtl a\n");
            for k in ["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "disp", "map_d", "decal"] {
                let nm: String = (0..n.min(70000)).map(|_| *r.pick(&['a', 'é', '/', '.', '日'])).collect();
                let _ = writeln!(s, "{k} {nm}");
            }
        }
        "error_last" => {
            for i in 0..n {
                let _ = writeln!(s, "newmtl m{i}");
                s.push_str(["\n", "\r\n", "# c\n", "d 1\n"][i % 4]);
            }
            s.push_str("Ka 1 2\n");
        }
        _ => unreachable!(),
    }
    s
}
