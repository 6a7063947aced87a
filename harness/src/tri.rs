//! Triangles with all their vertex attributes, and the reference triangles of
//! single faces (from maps in which every face is a surface of its own).
use crate::mapdoc::*;
use crate::sut::{self, Cfg, Surf, V3};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Vx {
    pub p: [u32; 3],
    pub n: [u32; 3],
    pub t: [u32; 4],
    pub uv: Option<[u32; 2]>,
    pub c: Option<[u32; 3]>,
}
pub type Tri = [Vx; 3];

fn b(v: f32) -> u32 {
    if v == 0.0 {
        0
    } else {
        v.to_bits()
    }
}
pub fn b3(v: V3) -> [u32; 3] {
    v.map(b)
}
pub fn f3(v: [u32; 3]) -> V3 {
    v.map(f32::from_bits)
}

/// The vertices of a surface, after checking that its lists fit together.
pub fn vertices(s: &Surf) -> Result<Vec<Vx>, String> {
    let n = s.verts.len();
    let lens = [
        Some(s.normals.len()),
        Some(s.tangents.len()),
        s.uvs.as_ref().map(|u| u.len()),
        s.colors.as_ref().map(|u| u.len()),
    ];
    if lens.iter().flatten().any(|l| *l != n) {
        return Err(format!("{n} vertices but attribute lists of {lens:?}"));
    }
    if s.indices.len() % 3 != 0 {
        return Err(format!("{} indices are not whole triangles", s.indices.len()));
    }
    if let Some(i) = s.indices.iter().find(|i| **i >= n) {
        return Err(format!("index {i} out of range ({n} vertices)"));
    }
    Ok((0..n)
        .map(|i| Vx {
            p: b3(s.verts[i]),
            n: b3(s.normals[i]),
            t: {
                let (t, w) = s.tangents[i];
                [b(t[0]), b(t[1]), b(t[2]), b(w)]
            },
            uv: s.uvs.as_ref().map(|u| u[i].map(b)),
            c: s.colors.as_ref().map(|c| b3(c[i])),
        })
        .collect())
}
pub fn turn<T: Ord + Clone>(t: [T; 3]) -> [T; 3] {
    let m = (0..3).min_by(|a, b| t[*a].cmp(&t[*b])).unwrap();
    [0, 1, 2].map(|i| t[(m + i) % 3].clone())
}
/// Triangles (first corner normalised, winding kept), sorted.
pub fn triangles(s: &Surf) -> Result<Vec<Tri>, String> {
    let v = vertices(s)?;
    let mut t: Vec<Tri> = s
        .indices
        .chunks(3)
        .map(|i| turn([v[i[0]].clone(), v[i[1]].clone(), v[i[2]].clone()]))
        .collect();
    t.sort();
    Ok(t)
}
pub type PTri = [[u32; 3]; 3];
pub fn positions(t: &[Tri]) -> Vec<PTri> {
    let mut v: Vec<PTri> = t.iter().map(|t| turn([t[0].p, t[1].p, t[2].p])).collect();
    v.sort();
    v
}
pub fn index_triangles(verts: &[V3], idx: &[usize]) -> Result<Vec<PTri>, String> {
    if idx.len() % 3 != 0 {
        return Err(format!("{} indices are not whole triangles", idx.len()));
    }
    if let Some(i) = idx.iter().find(|i| **i >= verts.len()) {
        return Err(format!("index {i} out of range ({} vertices)", verts.len()));
    }
    let mut v: Vec<PTri> = idx.chunks(3).map(|i| turn([b3(verts[i[0]]), b3(verts[i[1]]), b3(verts[i[2]])])).collect();
    v.sort();
    Ok(v)
}
/// First difference of two sorted lists, for messages.
pub fn differ<T: Ord + std::fmt::Debug>(want: &[T], got: &[T]) -> Option<String> {
    if want == got {
        return None;
    }
    let (mut i, mut j) = (0, 0);
    while i < want.len() || j < got.len() {
        if j == got.len() || (i < want.len() && want[i] < got[j]) {
            return Some(format!("missing {:?} ({} expected, {} found)", want[i], want.len(), got.len()));
        }
        if i == want.len() || got[j] < want[i] {
            return Some(format!("unexpected {:?} ({} expected, {} found)", got[j], want.len(), got.len()));
        }
        i += 1;
        j += 1;
    }
    None
}
pub fn show(t: &PTri) -> String {
    format!("{:?}", t.map(f3))
}

/// What a face gives when nothing else shares its surface.
#[derive(Clone, Debug, Default)]
pub struct FaceRef {
    pub verts: Vec<Vx>,
    pub tris: Vec<Tri>,
}
/// ent -> brush -> face
pub type Refs = Vec<Vec<Vec<FaceRef>>>;

/// Reference triangles of every face. `size` gives the texture size to use.
pub fn reference(ents: &[Ent], size: &dyn Fn(&str) -> (u32, u32)) -> Result<Refs, String> {
    let mut out = vec![];
    for e in ents {
        let mut brushes = vec![];
        for chunk in e.brushes.chunks(40) {
            let mut w = Ent::new("worldspawn");
            w.props.extend(e.props.iter().filter(|p| p.0.starts_with("_phong")).cloned());
            w.brushes = chunk.to_vec();
            let mut cfg = Cfg { classes: vec![class("worldspawn", Some((true, 0)))], ..Cfg::default() };
            let mut id = 0;
            for b in &mut w.brushes {
                for f in &mut b.faces {
                    let n = format!("ref{id}");
                    let (x, y) = size(&f.tex.to_lowercase());
                    cfg.textures.push((n.clone(), x, y));
                    f.tex = n;
                    id += 1;
                }
            }
            let doc = [w];
            let tree = sut::run_ok(&text(&doc), &cfg)?;
            let mut last: *const Brush = std::ptr::null();
            for v in face_views(&tree, &doc)? {
                if !std::ptr::eq(v.brush, last) {
                    brushes.push(vec![]);
                    last = v.brush;
                }
                let r = match v.surf {
                    Some(s) => FaceRef { verts: vertices(s)?, tris: triangles(s)? },
                    None => FaceRef::default(),
                };
                brushes.last_mut().unwrap().push(r);
            }
        }
        if brushes.len() != e.brushes.len() {
            return Err("reference map lost a brush".into());
        }
        out.push(brushes);
    }
    Ok(out)
}
pub fn distinct<T: Ord>(v: impl Iterator<Item = T>) -> usize {
    v.collect::<BTreeSet<T>>().len()
}
