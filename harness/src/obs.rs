//! Observation at the API boundary: run the library on a text, catch panics,
//! and copy what it returned into the oracle's own types.

use crate::model::{bits, El, Ix, Mat, Ob, Set};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wavefront_obj::{mtl, obj};

pub fn ix(i: obj::VTNIndex) -> Ix {
    match i {
        obj::VTNIndex::V(v) => Ix { v, vt: None, vn: None },
        obj::VTNIndex::VT(v, t) => Ix { v, vt: Some(t), vn: None },
        obj::VTNIndex::VN(v, n) => Ix { v, vt: None, vn: Some(n) },
        obj::VTNIndex::VTN(v, t, n) => Ix { v, vt: Some(t), vn: Some(n) },
    }
}

pub fn el(e: &obj::Element) -> El {
    match *e {
        obj::Element::Point(a) => El::P(ix(a)),
        obj::Element::Line(a, b) => El::L(ix(a), ix(b)),
        obj::Element::Face(a, b, c) => El::F(ix(a), ix(b), ix(c)),
    }
}

pub fn object(o: &obj::Object) -> Ob {
    Ob {
        name: o.name.clone(),
        v: o.vertex_set.iter().map(|v| [bits(v.x), bits(v.y), bits(v.z), bits(v.w)]).collect(),
        vt: o.texture_vertex_set.iter().map(|v| [bits(v.u), bits(v.v), bits(v.w)]).collect(),
        vn: o.normal_vertex_set.iter().map(|v| [bits(v.x), bits(v.y), bits(v.z)]).collect(),
        groups: o.group_set.iter().map(|g| g.0.clone()).collect(),
        smooth: o.smoothing_group_set.iter().map(|s| s.0).collect(),
        elems: o.element_set.iter().map(el).collect(),
        shapes: o.shape_set.iter().map(|s| (s.element, s.groups.clone(), s.smoothing_group)).collect(),
        geoms: o.geometry_set.iter().map(|g| (g.material_name.clone(), g.shapes.clone())).collect(),
    }
}

pub fn set(s: &obj::ObjectSet) -> Set {
    Set { libs: s.material_libraries.clone(), objs: s.objects.iter().map(object).collect() }
}

pub fn material(m: &mtl::Material) -> Mat {
    let c = |c: &mtl::Color| [bits(c.r), bits(c.g), bits(c.b)];
    Mat {
        name: m.name.clone(),
        colors: [c(&m.color_ambient), c(&m.color_diffuse), c(&m.color_specular), c(&m.color_emissive)],
        exponent: bits(m.specular_exponent),
        dissolve: bits(m.dissolve),
        density: m.optical_density.map(bits),
        illum: match m.illumination_model {
            mtl::IlluminationModel::Ambient => 0,
            mtl::IlluminationModel::AmbientDiffuse => 1,
            mtl::IlluminationModel::AmbientDiffuseSpecular => 2,
        },
        maps: [
            m.map_ambient.clone(),
            m.map_diffuse.clone(),
            m.map_specular.clone(),
            m.map_emissive.clone(),
            m.map_specular_exponent.clone(),
            m.map_bump.clone(),
            m.map_displacement.clone(),
            m.map_dissolve.clone(),
            m.map_decal.clone(),
        ],
    }
}

pub fn mats(s: &mtl::MaterialSet) -> Vec<Mat> {
    s.materials.iter().map(material).collect()
}

/// What a parse did.
#[derive(Debug)]
pub enum Out<T, E> {
    Ok(T),
    Err(E),
    Panic(String),
}

pub type ObjOut = Out<obj::ObjectSet, obj::ParseError>;
pub type MtlOut = Out<mtl::MaterialSet, mtl::ParseError>;

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

pub fn run_obj(text: &str) -> ObjOut {
    match guarded(|| obj::parse(text)) {
        Ok(Ok(s)) => Out::Ok(s),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

pub fn run_mtl(text: &str) -> MtlOut {
    match guarded(|| mtl::parse(text)) {
        Ok(Ok(s)) => Out::Ok(s),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

/// Line number shown by a displayed parse error.
pub fn shown_line(display: &str) -> Option<usize> {
    let rest = &display[display.find("line ")? + 5..];
    let n = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
    rest[..n].parse().ok()
}

/// A bit-exact, printable account of a parse outcome.
pub fn fingerprint_obj(o: &Result<obj::ObjectSet, obj::ParseError>) -> String {
    match o {
        Ok(s) => format!("OK {:?}", set(s)),
        Err(e) => format!("ERR {} {:?} {:?} {}", e.line_number, e.kind, e.message, e),
    }
}
pub fn fingerprint_mtl(o: &Result<mtl::MaterialSet, mtl::ParseError>) -> String {
    match o {
        Ok(s) => format!("OK {:?}", mats(s)),
        Err(e) => format!("ERR {:?} {}", e, e),
    }
}
