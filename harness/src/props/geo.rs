//! C09 polygons, C10 triangles, C11 texture coordinates, C12 normals, C13 tangents.
use crate::geom::{self, D3};
use crate::mapdoc::*;
use crate::runner::{Check, Obs, Prop};
use crate::sut;
use proptest::prelude::*;

type Doc = Vec<Ent>;

fn label_brushes(ents: &[Ent], obs: &mut Obs) {
    for e in ents {
        for b in &e.brushes {
            obs.label(&format!("brush: {}", b.geo.kind));
            let c = b.geo.max_coord();
            obs.label_if(c > 1000.0, "brush beyond 1000 units");
            obs.label_if(!b.geo.simple(), "brush with a corner of 4+ faces");
            obs.label_if(b.geo.faces.iter().any(|f| f.poly.is_empty()), "brush with redundant planes");
            obs.label_if(b.geo.faces.len() > 10, "brush with more than 10 planes");
        }
    }
}
fn interesting(ents: &[Ent]) -> bool {
    ents.iter().any(|e| e.brushes.iter().any(|b| b.geo.kind != "box" && b.geo.kind != "fallback box"))
}

fn geo_cfg(ents: &[Ent]) -> sut::Cfg {
    let mut cfg = basic_cfg(0);
    add_textures(&mut cfg, ents);
    cfg
}

pub struct C09;
impl Prop for C09 {
    type Case = Doc;
    const ID: &'static str = "C09";
    const CASES: (u64, u64) = (96_000, 1_440_000);
    const RULE: &'static str = "maps of 0-9 convex brushes (boxes, point hulls, prisms, frusta, pyramids, bevels down to 1/64 unit, planes cutting a box at non-grid positions, slivers; offsets to 4000 units; redundant planes; any plane points and face order), every face with its own texture; non-trivial: at least one brush that is not a box";
    const ASSUME: &'static [&'static str] = &["the harness's exact integer hull (or double-precision clipping) gives the reference polygons"];
    fn strategy(_: bool) -> BoxedStrategy<Doc> {
        geo_doc(geom::brush, 3)
    }
    fn fixed(_: bool) -> Vec<Doc> {
        fixed_docs()
    }
    fn check(ents: &Doc, obs: &mut Obs) -> Check {
        label_brushes(ents, obs);
        obs.nontrivial(interesting(ents));
        let tree = sut::run_ok(&text(ents), &geo_cfg(ents))?;
        for v in face_views(&tree, ents)? {
            let poly = &v.geo().poly;
            match v.surf {
                None => {
                    if !poly.is_empty() {
                        return Err(format!("{} has no vertices", v.name()));
                    }
                }
                Some(s) => {
                    if poly.is_empty() {
                        return Err(format!("redundant {} has vertices {:?}", v.name(), s.verts));
                    }
                    match_corners(&s.verts, poly).map_err(|m| format!("{}: {m}", v.name()))?;
                    if s.verts.len() != poly.len() && once(v.brush, v.idx) {
                        return Err(format!("{}: corners {poly:?} but vertices {:?}", v.name(), s.verts));
                    }
                }
            }
        }
        Ok(())
    }
}

/// Whether every corner of the face must come out as one vertex: it is exact in
/// single precision, or only three faces meet there.
pub fn once(b: &Brush, face: usize) -> bool {
    b.geo.faces[face].poly.iter().all(|p| {
        p.iter().all(|c| *c as f32 as f64 == *c) || b.geo.incident(*p).len() == 3
    })
}

pub fn fixed_docs() -> Vec<Doc> {
    let mut out = vec![];
    let one = |geos: Vec<geom::GBrush>| {
        let mk = |geo: geom::GBrush| Brush {
            faces: geo
                .faces
                .iter()
                .map(|_| Face {
                    tex: String::new(),
                    align: Align::Std { off: [0.0, 0.0] },
                    rot: 0.0,
                    scale: [1.0, 1.0],
                    extra: Extra::None,
                })
                .collect(),
            geo,
        };
        let mut e = vec![Ent { brushes: geos.into_iter().map(mk).collect(), ..Ent::new("worldspawn") }];
        make_unique(&mut e, 0);
        e
    };
    for n in [24, 32, 40] {
        out.push(one(vec![geom::simple_prism(n, 3000, 64, [0, 0, 0])]));
        out.push(one(vec![geom::simple_pyramid(n, 1000, 500, [10, 20, 30])]));
    }
    // more corners than a signed or unsigned byte, a machine word's bits or a power of two suggest
    for n in [65, 72, 129, 260] {
        out.push(one(vec![geom::simple_prism(n, 40_000, 64, [0, 0, 0])]));
    }
    for at in [
        [8192, -8192, 8192], [-16000, 100, 0], [0, 0, 0], [32000, 32000, 32000],
        [70_000, -70_000, 100], [-66_000, 66_000, -66_000], [131_100, 0, -131_100], [-300_000, 5, 262_144],
    ] {
        out.push(one(vec![geom::simple_box(at, [64, 128, 32]), geom::simple_prism(5, 64, 32, at)]));
    }
    for size in [[1, 1, 1], [1, 8192, 4096], [640, 1, 2], [20_000, 20_000, 1], [8192, 1, 300]] {
        out.push(one(vec![geom::thin_box([64, -32, 200], size), geom::thin_box([0, 0, 0], size)]));
    }
    // a large sphere-like hull
    let mut pts = vec![];
    for i in 0..5i64 {
        for j in 0..8i64 {
            let (a, b) = ((i as f64 - 2.0) * 0.6, j as f64 * 0.785);
            pts.push([
                (2000.0 * a.cos() * b.cos()) as i64,
                (2000.0 * a.cos() * b.sin()) as i64,
                (2000.0 * a.sin()) as i64,
            ]);
        }
    }
    out.push(one(vec![geom::from_points(pts, [17, -33, 49])]));
    out
}

pub struct C10;
impl Prop for C10 {
    type Case = Doc;
    const ID: &'static str = "C10";
    const CASES: (u64, u64) = (96_000, 1_440_000);
    const RULE: &'static str = "as C09; every face's triangles are checked against its polygon, and the signed volume of a brush's triangles against the brush; non-trivial: at least one face with more than four corners or a brush that is not a box";
    fn strategy(_: bool) -> BoxedStrategy<Doc> {
        geo_doc(geom::brush, 3)
    }
    fn fixed(_: bool) -> Vec<Doc> {
        fixed_docs()
    }
    fn check(ents: &Doc, obs: &mut Obs) -> Check {
        label_brushes(ents, obs);
        obs.nontrivial(interesting(ents));
        let tree = sut::run_ok(&text(ents), &geo_cfg(ents))?;
        for v in face_views(&tree, ents)? {
            let s = match v.surf {
                Some(s) => s,
                None => continue,
            };
            check_triangles(&s.verts, &s.indices, &v.geo().poly, v.geo().n)
                .map_err(|m| format!("{}: {m}", v.name()))?;
        }
        Ok(())
    }
}

/// Triangles on the polygon's corners, clockwise from outside, covering it once.
pub fn check_triangles(verts: &[[f32; 3]], indices: &[usize], poly: &[D3], n: D3) -> Check {
    if indices.len() % 3 != 0 {
        return Err(format!("{} indices are not whole triangles", indices.len()));
    }
    if let Some(i) = indices.iter().find(|i| **i >= verts.len()) {
        return Err(format!("index {i} out of range ({} vertices)", verts.len()));
    }
    if poly.is_empty() {
        return Ok(());
    }
    let at = match_corners(verts, poly)?;
    // areas with the exact corners: clockwise means negative about n
    let area = |a: usize, b: usize, c: usize| {
        geom::dot(n, geom::cross(geom::sub(poly[b], poly[a]), geom::sub(poly[c], poly[a]))) / 2.0
    };
    let total: f64 = (1..poly.len() - 1).map(|i| area(0, i, i + 1)).sum();
    let mut sum = 0.0;
    let k = poly.len();
    let mut edges = std::collections::BTreeMap::new();
    for t in indices.chunks(3) {
        let (a, b, c) = (at[t[0]], at[t[1]], at[t[2]]);
        if a == b || b == c || a == c {
            continue; // sliver between vertices of one corner
        }
        let ar = area(a, b, c);
        if ar >= 0.0 {
            return Err(format!("triangle {t:?} winds the wrong way (corners {poly:?}, vertices {verts:?})"));
        }
        sum -= ar;
        for (x, y) in [(a, b), (b, c), (c, a)] {
            *edges.entry((x, y)).or_insert(0) += 1;
        }
    }
    if (sum - total).abs() > 1e-6 * total {
        return Err(format!(
            "triangles {indices:?} cover area {sum} of {total} (corners {poly:?}, vertices {verts:?})"
        ));
    }
    // a triangulation of the convex polygon: border edges once, inner edges both ways
    for i in 0..k {
        if edges.remove(&((i + 1) % k, i)) != Some(1) {
            return Err(format!("border edge of the polygon is not covered once: {indices:?}"));
        }
    }
    for ((x, y), c) in &edges {
        if *c != 1 || edges.get(&(*y, *x)) != Some(&1) {
            return Err(format!("triangles overlap: {indices:?}"));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct UvCase {
    ents: Doc,
    /// every n-th texture is missing from the table (0: none)
    unknown: usize,
}
fn uv_case() -> BoxedStrategy<UvCase> {
    (geo_doc(geom::brush, 3), prop_oneof![2 => Just(0usize), 1 => 2usize..6])
        .prop_map(|(ents, unknown)| UvCase { ents, unknown })
        .boxed()
}
fn uv_cfg(c: &UvCase) -> sut::Cfg {
    let mut cfg = geo_cfg(&c.ents);
    if c.unknown > 0 {
        let mut i = 0;
        cfg.textures.retain(|_| {
            i += 1;
            i % c.unknown != 0
        });
    }
    cfg
}

/// The face's normal as exact integers (in some scale), where the points allow it.
fn exact_normal(f: &geom::GFace) -> Option<[i128; 3]> {
    let mut p = [[0i128; 3]; 3];
    for (i, v) in f.pts.iter().enumerate() {
        for (j, c) in v.iter().enumerate() {
            let x = *c as f64 * 1024.0;
            if x.fract() != 0.0 || x.abs() > 3.3e7 {
                return None;
            }
            p[i][j] = x as i128;
        }
    }
    let d = |k: usize| [0, 1, 2].map(|i| p[k][i] - p[0][i]);
    let (a, b) = (d(2), d(1));
    Some([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
}
/// Projection axes a standard face may use: the closest one, the first of z, x
/// and y where several are equally close; more than one where they differ by
/// less than single precision tells apart.
fn dominant(f: &geom::GFace) -> Vec<usize> {
    let m = f.n.iter().fold(0.0f64, |a, c| a.max(c.abs()));
    let near: Vec<usize> = [2, 0, 1].into_iter().filter(|i| f.n[*i].abs() > m - 1e-5).collect();
    match exact_normal(f) {
        Some(e) if near.iter().all(|i| e[*i].abs() == e[near[0]].abs()) => vec![near[0]],
        _ => near,
    }
}

/// Expected texture coordinate and its tolerance.
fn uv_model(p: D3, f: &Face, size: (u32, u32), axis: usize) -> ([f64; 2], [f64; 2]) {
    let size = [size.0 as f64, size.1 as f64];
    let scale = [f.scale[0] as f64, f.scale[1] as f64];
    let (raw, off, mag) = match &f.align {
        Align::Std { off } => {
            let (x, y) = match axis {
                2 => (p[0], -p[1]),
                1 => (p[0], -p[2]),
                _ => (p[1], -p[2]),
            };
            let a = (f.rot as f64).to_radians();
            let m = (x.abs() + y.abs()) * (1.0 + a.abs() / 10.0);
            ([x * a.cos() - y * a.sin(), x * a.sin() + y * a.cos()], *off, [m, m])
        }
        Align::Valve { u, uo, v, vo } => {
            let abs = |a: [f32; 3]| (0..3).map(|i| (a[i] as f64 * p[i]).abs()).sum::<f64>();
            (
                [geom::dot(p, geom::d3(*u)), geom::dot(p, geom::d3(*v))],
                [*uo, *vo],
                [abs(*u), abs(*v)],
            )
        }
    };
    let val = [0, 1].map(|i| raw[i] / size[i] / scale[i] + off[i] as f64 / size[i]);
    let tol = [0, 1].map(|i| {
        2e-6 * mag[i] / (size[i] * scale[i].abs()) + 1e-6 * (off[i] as f64).abs() / size[i] + 1e-6 + 1e-6 * val[i].abs()
    });
    (val, tol)
}
fn uv_fits(s: &sut::Surf, f: &Face, axis: usize) -> Result<(), String> {
    let size = tex_size(&f.tex.to_lowercase());
    let uvs = s.uvs.as_ref().ok_or("no texture coordinates")?;
    if uvs.len() != s.verts.len() {
        return Err(format!("{} texture coordinates for {} vertices", uvs.len(), s.verts.len()));
    }
    for (p, uv) in s.verts.iter().zip(uvs) {
        let (want, tol) = uv_model(geom::d3(*p), f, size, axis);
        for i in 0..2 {
            if !((uv[i] as f64 - want[i]).abs() <= tol[i]) {
                return Err(format!("at {p:?} texture coordinate {uv:?}, expected {want:?} (size {size:?}, {f:?})"));
            }
        }
    }
    Ok(())
}

pub struct C11;
impl Prop for C11 {
    type Case = UvCase;
    const ID: &'static str = "C11";
    const CASES: (u64, u64) = (96_000, 1_440_000);
    const RULE: &'static str = "brush maps as C09 with standard and Valve faces, any rotation, scales of both signs, offsets, texture sizes, and (a third) textures missing from the table; every vertex's texture coordinate is compared with the formula in double precision; non-trivial: a face that is rotated, scaled, shifted or in Valve format";
    fn strategy(_: bool) -> BoxedStrategy<UvCase> {
        uv_case()
    }
    fn fixed(_: bool) -> Vec<UvCase> {
        fixed_docs().into_iter().map(|ents| UvCase { ents, unknown: 0 }).collect()
    }
    fn check(c: &UvCase, obs: &mut Obs) -> Check {
        let cfg = uv_cfg(c);
        let tree = sut::run_ok(&text(&c.ents), &cfg)?;
        for v in face_views(&tree, &c.ents)? {
            let f = v.face();
            let known = cfg.textures.iter().any(|t| t.0 == f.tex.to_lowercase());
            obs.label_if(!known, "face with unknown texture");
            let s = match v.surf {
                Some(s) => s,
                None => continue,
            };
            let axes = dominant(v.geo());
            obs.label_if(
                matches!(f.align, Align::Std { .. }) && {
                    let mut n = v.geo().n.map(|c| (c.abs() * 1e6).round() as i64);
                    n.sort();
                    n[1] == n[2]
                },
                "face: standard, exactly 45 degrees",
            );
            match f.align {
                Align::Valve { .. } => obs.label("face: valve"),
                _ => obs.label(&format!("face: standard, axes {axes:?}")),
            }
            obs.nontrivial(f.rot != 0.0 || f.scale != [1.0, 1.0] || matches!(f.align, Align::Valve { .. }));
            let r: Vec<_> = axes.iter().map(|a| uv_fits(s, f, *a)).collect();
            if r.iter().all(|r| r.is_err()) {
                return Err(format!("{}: {}", v.name(), r[0].clone().unwrap_err()));
            }
        }
        let mut acts = vec![];
        actors(&tree, &mut acts);
        for a in acts {
            for s in surfaces(a) {
                if s.texture.is_none() && s.uvs.is_some() {
                    return Err("untextured surface with texture coordinates".into());
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct PhongCase {
    ents: Doc,
}
/// Whether a phong angle is clear of (or meant to be equal to) all angles
/// between faces, as far as single precision tells them apart.
fn clear_of(bad: &[f64], a: f64) -> bool {
    bad.iter().all(|b| {
        let margin = if *b > 10.0 && *b < 170.0 { 0.004 } else { 0.3 };
        (b - a.clamp(-0.01, 180.0) - 0.01).abs() > margin
    })
}
/// Angles between the faces of the entity's brushes.
fn face_angles(e: &Ent) -> Vec<f64> {
    let mut bad: Vec<f64> = vec![];
    for b in &e.brushes {
        for (i, f) in b.geo.faces.iter().enumerate() {
            for g in &b.geo.faces[i + 1..] {
                bad.push(geom::dot(f.n, g.n).clamp(-1.0, 1.0).acos().to_degrees());
            }
        }
    }
    bad
}
/// What an angle is made of: a wanted angle, or one near that of two faces.
#[derive(Clone, Debug)]
enum Angle {
    Text(String),
    Near(f64),
    Faces(u16, f64),
}
impl Angle {
    fn text(&self, e: &Ent, style: u8) -> Option<String> {
        let bad = face_angles(e);
        let a = match self {
            Angle::Text(t) => return Some(t.clone()),
            Angle::Near(a) => *a,
            Angle::Faces(_, d) if bad.is_empty() => 50.0 + d,
            Angle::Faces(i, d) => bad[*i as usize % bad.len()] + d,
        };
        let a = (0..40).map(|k| a + k as f64 * 1.25).find(|a| clear_of(&bad, *a as f32 as f64))?;
        let a = a as f32;
        Some(match style % 6 {
            0 if a >= 0.0 => format!("+{a}"),
            1 => format!("{a:e}"),
            2 => format!("{a:?}"),
            _ => format!("{a}"),
        })
    }
}

pub struct C12;
impl Prop for C12 {
    type Case = PhongCase;
    const ID: &'static str = "C12";
    const CASES: (u64, u64) = (96_000, 1_440_000);
    const RULE: &'static str = "brush maps as C09, each entity without phong, with `_phong` 1 (no angle, unreadable angle, or -720 to 720 degrees in several spellings, many at or 0.02 degrees beside an angle between two faces) or with other `_phong` values; every vertex normal is compared with the blend computed from the brush's planes (at corners of four or more faces with the blend over any three of them); non-trivial: an entity with phong and a brush";
    fn strategy(_: bool) -> BoxedStrategy<PhongCase> {
        let phong = prop_oneof![
            2 => Just((None, None)),
            6 => prop_oneof![
                1 => Just(None),
                1 => prop::sample::select(vec!["abc", "", "45 degrees", "4 5", "0x20", "-"]).prop_map(|t| Some(Angle::Text(t.into()))),
                2 => (0u32..180).prop_map(|a| Some(Angle::Near(a as f64))),
                1 => prop::sample::select(vec![1u32, 30, 45, 46, 60, 89, 91, 120, 179]).prop_map(|a| Some(Angle::Near(a as f64))),
                1 => (-7200i32..7200).prop_map(|a| Some(Angle::Near(a as f64 / 10.0))),
                3 => (any::<u16>(), prop::sample::select(vec![-0.5, -0.1, -0.02, 0.0, 0.0, 0.02, 0.5]))
                    .prop_map(|(i, d)| Some(Angle::Faces(i, d))),
            ].prop_map(|a| (Some("1".to_string()), a)),
            2 => (prop::sample::select(vec!["0", "2", "true", "11", " 1", "1.0", "", "01", "+1", "-1"]), 0u32..180)
                .prop_map(|(p, a)| (Some(p.to_string()), Some(Angle::Text(format!("{a}"))))),
            1 => (0u32..180).prop_map(|a| (None, Some(Angle::Text(format!("{a}"))))),
        ];
        (geo_doc(geom::brush, 3), prop::collection::vec(phong, 3), any::<bool>(), any::<u8>())
            .prop_map(|(mut ents, ph, front, style)| {
                for (k, (e, (p, a))) in ents.iter_mut().zip(ph).enumerate() {
                    let mut add = vec![];
                    if let Some(p) = p {
                        add.push(("_phong".to_string(), p));
                    }
                    if let Some(a) = a.and_then(|a| a.text(e, style.wrapping_add(k as u8))) {
                        add.push(("_phong_angle".to_string(), a));
                    }
                    if front {
                        add.reverse();
                    }
                    // (the map may set both already)
                    e.props.retain(|q| !add.iter().any(|p| p.0 == q.0));
                    e.props.extend(add);
                }
                PhongCase { ents }
            })
            .boxed()
    }
    fn check(c: &PhongCase, obs: &mut Obs) -> Check {
        let tree = sut::run_ok(&text(&c.ents), &geo_cfg(&c.ents))?;
        for v in face_views(&tree, &c.ents)? {
            let s = match v.surf {
                Some(s) => s,
                None => continue,
            };
            let e = &c.ents[v.ent];
            let phong = e.get("_phong") == Some("1");
            let angle = e.get("_phong_angle").and_then(|a| a.parse::<f32>().ok()).map(|a| a as f64);
            obs.nontrivial(phong);
            obs.label(match (phong, angle) {
                (false, _) => "face: flat",
                (true, None) => "face: phong, no angle",
                _ => "face: phong with angle",
            });
            if s.normals.len() != s.verts.len() {
                return Err(format!("{}: {} normals for {} vertices", v.name(), s.normals.len(), s.verts.len()));
            }
            let n0 = v.geo().n;
            let faces = &v.brush.geo.faces;
            for (p, n) in s.verts.iter().zip(&s.normals) {
                let n = geom::d3(*n);
                if !((geom::len(n) - 1.0).abs() < 1e-5) {
                    return Err(format!("{}: normal {n:?} is not of unit length", v.name()));
                }
                let mut options = vec![];
                if !phong {
                    options.push(n0);
                } else {
                    let poly = &v.geo().poly;
                    let c = poly
                        .iter()
                        .min_by(|a, b| geom::dist(**a, geom::d3(*p)).total_cmp(&geom::dist(**b, geom::d3(*p))))
                        .copied()
                        .unwrap_or([0.0; 3]);
                    let inc: Vec<usize> = v.brush.geo.incident(c).into_iter().filter(|i| *i != v.idx).collect();
                    obs.label_if(inc.len() > 2, "phong corner of 4+ faces");
                    for (k, i) in inc.iter().enumerate() {
                        for j in &inc[k + 1..] {
                            let mut sum = n0;
                            let mut blended = false;
                            for m in [faces[*i].n, faces[*j].n] {
                                let within = match angle {
                                    None => true,
                                    Some(a) => geom::dot(n0, m).clamp(-1.0, 1.0).acos().to_degrees() < a + 0.01, // (equal angles are within)
                                };
                                if within {
                                    sum = geom::add(sum, m);
                                    blended = true;
                                }
                            }
                            obs.label_if(blended, "phong corner blended");
                            obs.label_if(!blended, "phong corner not blended");
                            options.push(geom::unit(sum));
                        }
                    }
                }
                if !options.iter().any(|o| geom::dist(*o, n) < 2e-5) {
                    return Err(format!(
                        "{}: at {p:?} normal {n:?}, expected {:?} (phong {:?}, angle {:?})",
                        v.name(), options, e.get("_phong"), e.get("_phong_angle")
                    ));
                }
            }
        }
        Ok(())
    }
}

pub struct C13;
impl Prop for C13 {
    type Case = Doc;
    const ID: &'static str = "C13";
    const CASES: (u64, u64) = (96_000, 1_440_000);
    const RULE: &'static str = "brush maps as C11; tangent and sign of every vertex are compared with the turned projection axis (standard; on the axis the texture coordinates use where two are possible) or the given U axis (Valve); the sign is not checked where the Valve axes are degenerate against the face; non-trivial: a face that is rotated, mirrored or in Valve format";
    fn strategy(_: bool) -> BoxedStrategy<Doc> {
        geo_doc(geom::brush, 3)
    }
    fn check(ents: &Doc, obs: &mut Obs) -> Check {
        let tree = sut::run_ok(&text(ents), &geo_cfg(ents))?;
        for v in face_views(&tree, ents)? {
            let s = match v.surf {
                Some(s) => s,
                None => continue,
            };
            let f = v.face();
            let n = v.geo().n;
            obs.nontrivial(f.rot != 0.0 || f.scale[0] < 0.0 || f.scale[1] < 0.0 || matches!(f.align, Align::Valve { .. }));
            if s.tangents.len() != s.verts.len() {
                return Err(format!("{}: {} tangents for {} vertices", v.name(), s.tangents.len(), s.verts.len()));
            }
            let sy = f.scale[1].signum() as f64;
            // (tangent, sign or None if either is fine)
            let options: Vec<(D3, Option<f64>)> = match &f.align {
                Align::Valve { u, v, .. } => {
                    let (u, v) = (geom::d3(*u), geom::d3(*v));
                    let h = geom::dot(geom::cross(n, u), v);
                    let sure = h.abs() > 1e-4 * geom::len(u) * geom::len(v);
                    obs.label(if sure { "valve face" } else { "valve face, degenerate axes" });
                    vec![(u, if sure { Some(-h.signum() * sy) } else { None })]
                }
                Align::Std { .. } => {
                    let all = dominant(v.geo());
                    let fit: Vec<usize> = all.iter().copied().filter(|a| uv_fits(s, f, *a).is_ok()).collect();
                    let axes = if fit.is_empty() { all } else { fit };
                    axes.iter()
                        .map(|a| {
                            let (t, sg) = match a {
                                2 => ([1.0, 0.0, 0.0], n[2].signum()),
                                1 => ([1.0, 0.0, 0.0], -n[1].signum()),
                                _ => ([0.0, 1.0, 0.0], n[0].signum()),
                            };
                            obs.label(&format!("standard face, axis {a}, sign {sg}"));
                            let th = (f.rot as f64).to_radians() * sg;
                            let turned = geom::add(
                                geom::add(geom::mul(t, th.cos()), geom::mul(geom::cross(n, t), th.sin())),
                                geom::mul(n, geom::dot(n, t) * (1.0 - th.cos())),
                            );
                            (turned, Some(sg * sy))
                        })
                        .collect()
                }
            };
            for (t, w) in &s.tangents {
                if w.abs() != 1.0 {
                    return Err(format!("{}: tangent sign {w}", v.name()));
                }
                let td = geom::d3(*t);
                let fits = options
                    .iter()
                    .any(|(o, sg)| geom::dist(*o, td) < 3e-5 && sg.map_or(true, |sg| sg == *w as f64));
                if !fits {
                    return Err(format!("{}: tangent {t:?} sign {w}, expected {options:?} ({f:?}, normal {n:?})", v.name()));
                }
            }
        }
        Ok(())
    }
}
