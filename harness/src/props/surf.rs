//! C14 surfaces, C15 merged attributes, C16 convex and C17 concave collision,
//! C18 worldspawn layers, C19 dialects and colours.
use crate::geom::{self, GBrush};
use crate::mapdoc::*;
use crate::runner::{Check, Obs, Prop};
use crate::sut::{self, Cfg, Coll, Data, LayerDef, Node, Surf};
use crate::tri::{self, FaceRef, Tri};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const TEX: [&str; 20] = [
    "brick", "Metal", "{grid", "*lava1", "+0button", "clip", "skip", "trigger", "sky_01", "base/wall", "*water1", "brick2",
    "+1button", "wall", "button", "grid",
    "castle_wall_of_old_bricks_1", "castle_wall_of_old_bricks_2",
    "textures/castle_of_the_north/courtyard/walls_and_floors/of_stone_from_the_quarry/brick_1",
    "textures/castle_of_the_north/courtyard/walls_and_floors/of_stone_from_the_quarry/brick_2",
];
const NTEX: u8 = TEX.len() as u8;

/// How a map is textured.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Paint {
    /// per brush: first texture, pattern over its faces
    pick: Vec<(u8, u8)>,
    known: u32,
    brush_black: u32,
    plane_black: u32,
}
fn mask(sparse: bool) -> BoxedStrategy<u32> {
    if sparse {
        prop_oneof![2 => Just(0u32), 2 => (0u32..NTEX as u32).prop_map(|b| 1 << b), 3 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b)].boxed()
    } else {
        prop_oneof![1 => Just(u32::MAX), 2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a | b), 1 => any::<u32>()].boxed()
    }
}
fn paint(black: bool) -> BoxedStrategy<Paint> {
    let bl = move || if black { mask(true) } else { Just(0u32).boxed() };
    let pick = prop_oneof![
        6 => prop::collection::vec((0u8..NTEX, any::<u8>()), 1..8),
        // one texture, a few others for long, and that one again
        1 => ((0u8..NTEX, any::<u8>()), prop::collection::vec((0u8..NTEX, any::<u8>()), 1..3), 5usize..70).prop_map(|(a, b, n)| {
            let mut v = vec![a];
            v.extend(b.iter().cycle().take(n).map(|(t, m)| ((a.0 + 3 + t % 7) % NTEX, m % 3)));
            v.push(a);
            v
        }),
    ];
    (pick, mask(false), bl(), bl())
        .prop_map(|(pick, known, brush_black, plane_black)| Paint { pick, known, brush_black, plane_black })
        .boxed()
}
impl Paint {
    fn apply(&self, ents: &mut [Ent]) {
        let mut i = 0;
        for e in ents {
            for b in &mut e.brushes {
                let (t, m) = self.pick[i % self.pick.len()];
                i += 1;
                for (j, f) in b.faces.iter_mut().enumerate() {
                    let k = match m % 6 {
                        0 | 1 => 0,
                        2 => j % 2,
                        3 => (j / 2) % 3,
                        4 => (j == m as usize / 6 % 6) as usize,
                        _ => j * (m as usize / 6) % 5,
                    };
                    f.tex = TEX[(t as usize + k) % TEX.len()].to_string();
                }
            }
        }
    }
    fn names(m: u32) -> Vec<String> {
        (0..TEX.len()).filter(|i| m >> i & 1 == 1).map(|i| TEX[i].to_lowercase()).collect()
    }
    fn cfg(&self, coll: u8) -> Cfg {
        let mut cfg = basic_cfg(coll);
        for n in Self::names(self.known) {
            let (w, h) = tex_size(&n);
            cfg.textures.push((n, w, h));
        }
        cfg.black_brush = Self::names(self.brush_black);
        cfg.black_plane = Self::names(self.plane_black);
        cfg
    }
    fn known(&self, t: &str) -> bool {
        Self::names(self.known).contains(&t.to_lowercase())
    }
    fn visible(&self, b: &Brush, face: usize) -> bool {
        let bb = Self::names(self.brush_black);
        let bp = Self::names(self.plane_black);
        !(b.faces.iter().all(|f| bb.contains(&f.tex.to_lowercase())) || bp.contains(&b.faces[face].tex.to_lowercase()))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Painted {
    ents: Vec<Ent>,
    paint: Paint,
    /// worldspawn gets this many more boxes with the first picks
    more: usize,
}
impl Painted {
    fn doc(&self) -> Vec<Ent> {
        let mut ents = self.ents.clone();
        for i in 0..self.more as i64 {
            let geo = geom::simple_box([(i % 64) * 40, (i / 64 % 64) * 40, i / 4096 * 40], [16 + i % 7, 24, 8 + i % 5]);
            ents[0].brushes.push(plain_brush(geo));
        }
        self.paint.apply(&mut ents);
        ents
    }
    fn big(n: usize, uniform: bool) -> Painted {
        Painted {
            ents: vec![Ent::new("worldspawn")],
            paint: Paint {
                pick: if uniform { vec![(0, 0)] } else { vec![(0, 2), (3, 0), (4, 3)] },
                known: u32::MAX,
                brush_black: 0,
                plane_black: 0,
            },
            more: n,
        }
    }
}
pub fn plain_brush(geo: GBrush) -> Brush {
    let f = Face { tex: String::new(), align: Align::Std { off: [0.0, 0.0] }, rot: 0.0, scale: [1.0, 1.0], extra: Extra::None };
    Brush { faces: vec![f; geo.faces.len()], geo }
}
fn painted(geo: fn() -> BoxedStrategy<GBrush>, black: bool) -> BoxedStrategy<Painted> {
    (geo_doc(geo, 4), paint(black), any::<u8>())
        .prop_map(|(mut ents, paint, m)| {
            // make brushes overlap and touch: copies of one brush at the same or a shifted place
            if m % 4 == 0 {
                if let Some(b) = ents.iter().flat_map(|e| e.brushes.first()).next().cloned() {
                    let at = (m / 4) as usize % ents.len();
                    ents[at].brushes.push(b);
                }
            }
            // colours on many faces, so that whole surfaces have them
            if m % 5 == 0 {
                let mut k = 0;
                for e in &mut ents {
                    for b in &mut e.brushes {
                        for f in &mut b.faces {
                            if k % 7 != 6 || m % 2 == 0 {
                                f.extra = Extra::Six(0, 0, 0.0, [(k % 3) as f32 * 0.5, 0.25, 1.0]);
                            }
                            k += 1;
                        }
                    }
                }
            }
            // the same alignment on all faces of some maps, so that vertices can be shared
            if m % 3 == 0 {
                if let Some(a) = ents.iter().flat_map(|e| &e.brushes).flat_map(|b| &b.faces).next().cloned() {
                    for f in ents.iter_mut().flat_map(|e| &mut e.brushes).flat_map(|b| &mut b.faces) {
                        f.align = a.align.clone();
                        f.rot = a.rot;
                        f.scale = a.scale;
                    }
                }
            }
            // entities of many faces
            let more = if m % 16 == 1 { paint.pick.len() + (m / 16) as usize } else { 0 };
            Painted { ents, paint, more }
        })
        .boxed()
}

/// Expected surfaces of an entity: texture -> faces (brush, face).
fn expected_surfaces(e: &Ent, p: &Paint) -> BTreeMap<Option<String>, Vec<(usize, usize)>> {
    let mut m: BTreeMap<Option<String>, Vec<(usize, usize)>> = BTreeMap::new();
    for (bi, b) in e.brushes.iter().enumerate() {
        for (fi, f) in b.faces.iter().enumerate() {
            if p.visible(b, fi) {
                let k = p.known(&f.tex).then(|| f.tex.to_lowercase());
                m.entry(k).or_default().push((bi, fi));
            }
        }
    }
    m
}
fn ent_name(i: usize, e: &Ent) -> String {
    format!("entity {i} ({})", e.class())
}
/// Surfaces of an actor by texture; an error if one occurs twice.
fn by_texture(n: &Node) -> Result<BTreeMap<Option<String>, &Surf>, String> {
    let mut m = BTreeMap::new();
    for s in surfaces(n) {
        if m.insert(s.texture.clone(), s).is_some() {
            return Err(format!("two surfaces for texture {:?}", s.texture));
        }
    }
    Ok(m)
}
fn has_visual(n: &Node) -> bool {
    children(n).iter().any(|c| matches!(c.data, Data::Visual(_)))
}
fn observe(c: &Painted, doc: &[Ent], obs: &mut Obs) {
    for (e, b) in doc.iter().flat_map(|e| e.brushes.iter().map(move |b| (e, b))).take(50) {
        let vis = (0..b.faces.len()).filter(|i| c.paint.visible(b, *i)).count();
        obs.label(match vis {
            0 => "brush: no visible face",
            v if v == b.faces.len() => "brush: all faces visible",
            _ => "brush: some faces visible",
        });
        obs.label_if(e.get("_phong") == Some("1"), "brush: phong");
        obs.label_if(b.faces.iter().any(|f| !c.paint.known(&f.tex)), "brush: texture without size");
    }
}

pub struct C14;
impl Prop for C14 {
    type Case = Painted;
    const ID: &'static str = "C14";
    const CASES: (u64, u64) = (72_000, 1_080_000);
    const RULE: &'static str = "maps of up to 3 entities and 13 brushes, textures drawn from 20 names per brush (uniform or mixed), random texture table, brush and plane blacklists; some with up to 85 more boxes whose textures return after many others; plus maps of 3000 boxes; expected surfaces from the definition, their triangles from a run with every face in a surface of its own; non-trivial: at least two textures and one of them blacklisted or without size";
    fn strategy(_: bool) -> BoxedStrategy<Painted> {
        painted(geom::plain, true)
    }
    fn fixed(_: bool) -> Vec<Painted> {
        let mut b = Painted::big(700, false);
        b.paint.plane_black = 1 << 1;
        b.paint.brush_black = 1 << 3;
        let mut v = vec![Painted::big(3000, true), Painted::big(3000, false), b];
        // textures that come back after many others' faces
        for n in [2, 3, 6, 11, 22, 43, 86, 171, 342, 683] {
            let mut p = Painted::big(n, true);
            p.paint.pick = vec![(1, 0); n];
            p.paint.pick[0] = (0, 0);
            p.paint.pick[n / 2] = (5, 0);
            p.paint.pick[n - 1] = (0, 0);
            v.push(p);
        }
        v
    }
    fn check(c: &Painted, obs: &mut Obs) -> Check {
        let doc = c.doc();
        observe(c, &doc, obs);
        let refs = tri::reference(&doc, &tex_size)?;
        let tree = sut::run_ok(&text(&doc), &c.paint.cfg(0))?;
        for (ei, (n, e)) in flat_actors(&tree, &doc)?.iter().zip(&doc).enumerate() {
            let want = expected_surfaces(e, &c.paint);
            let names: BTreeSet<&str> = e.brushes.iter().flat_map(|b| &b.faces).map(|f| f.tex.as_str()).collect();
            obs.nontrivial(names.len() > 1 && (want.len() < names.len() || want.contains_key(&None)));
            obs.label_if(want.is_empty() && !e.brushes.is_empty(), "entity: brushes but nothing visible");
            obs.label_if(want.contains_key(&None), "entity: untextured surface");
            if want.is_empty() {
                if has_visual(n) {
                    return Err(format!("{} has a visual node without visible faces", ent_name(ei, e)));
                }
                continue;
            }
            let got = by_texture(n).map_err(|m| format!("{}: {m}", ent_name(ei, e)))?;
            let (wk, gk): (Vec<_>, Vec<_>) = (want.keys().collect(), got.keys().collect());
            if wk != gk {
                return Err(format!("{}: surfaces {gk:?} instead of {wk:?}", ent_name(ei, e)));
            }
            for (t, faces) in &want {
                let mut w: Vec<tri::PTri> =
                    faces.iter().flat_map(|(b, f)| tri::positions(&refs[ei][*b][*f].tris)).collect();
                w.sort();
                let g = tri::positions(&tri::triangles(got[t])?);
                if let Some(d) = tri::differ(&w, &g) {
                    return Err(format!("{}, surface {t:?}: triangles (position bits) {d}", ent_name(ei, e)));
                }
            }
        }
        Ok(())
    }
}

/// Compares a surface with the faces it should hold, attribute by attribute.
fn same_attributes(s: &Surf, faces: &[(usize, &FaceRef)]) -> Check {
    let uv = s.texture.is_some();
    let colors = s.colors.is_some();
    let strip = |v: &tri::Vx| tri::Vx {
        uv: if uv { v.uv } else { None },
        c: if colors { v.c } else { None },
        ..v.clone()
    };
    let mut want: Vec<Tri> =
        faces.iter().flat_map(|(_, f)| f.tris.iter()).map(|t| tri::turn([0, 1, 2].map(|i| strip(&t[i])))).collect();
    want.sort();
    let got = tri::triangles(s)?;
    if let Some(d) = tri::differ(&want, &got) {
        return Err(format!("triangles {d}"));
    }
    // vertices listed once per brush; the face colour counts as an attribute, listed or not
    let per_brush = |f: &dyn Fn(&tri::Vx) -> tri::Vx| {
        tri::distinct(faces.iter().flat_map(|(b, r)| r.verts.iter().map(move |v| (*b, v))).map(|(b, v)| (b, f(v))))
    };
    let low = per_brush(&strip);
    let high = per_brush(&|v: &tri::Vx| tri::Vx { uv: if uv { v.uv } else { None }, ..v.clone() });
    if s.verts.len() < low || s.verts.len() > high {
        return Err(format!("{} vertices where the brushes have {low} different ones", s.verts.len()));
    }
    Ok(())
}

pub struct C15;
impl Prop for C15 {
    type Case = Painted;
    const ID: &'static str = "C15";
    const CASES: (u64, u64) = (60_000, 900_000);
    const RULE: &'static str = "brush maps of all shapes with shared textures, flat or phong, with or without texture sizes and colours, compared with the run in which every face has its own texture of the same size: exact triangles with all attributes, and the number of vertices; plus maps of 3000 boxes (more than 65536 vertices in one surface); non-trivial: a surface of at least two faces of one brush";
    fn strategy(_: bool) -> BoxedStrategy<Painted> {
        prop_oneof![painted(geom::brush, false), painted(geom::plain, false)].boxed()
    }
    fn fixed(_: bool) -> Vec<Painted> {
        vec![Painted::big(3000, true), Painted::big(1000, false)]
    }
    fn check(c: &Painted, obs: &mut Obs) -> Check {
        let doc = c.doc();
        observe(c, &doc, obs);
        let refs = tri::reference(&doc, &tex_size)?;
        let tree = sut::run_ok(&text(&doc), &c.paint.cfg(0))?;
        for (ei, (n, e)) in flat_actors(&tree, &doc)?.iter().zip(&doc).enumerate() {
            let got = by_texture(n).map_err(|m| format!("{}: {m}", ent_name(ei, e)))?;
            for (t, faces) in expected_surfaces(e, &c.paint) {
                let fr: Vec<(usize, &FaceRef)> = faces.iter().map(|(b, f)| (*b, &refs[ei][*b][*f])).collect();
                obs.nontrivial((1..faces.len()).any(|i| faces[i].0 == faces[i - 1].0));
                match got.get(&t) {
                    Some(s) => {
                        obs.label_if(s.colors.is_some(), "surface with colours");
                        obs.label_if(
                            s.verts.len() < fr.iter().map(|f| f.1.verts.len()).sum(),
                            "surface with shared vertices",
                        );
                        same_attributes(s, &fr).map_err(|m| format!("{}, surface {t:?}: {m}", ent_name(ei, e)))?
                    }
                    None if fr.iter().all(|f| f.1.tris.is_empty()) => (),
                    None => return Err(format!("{}: no surface for {t:?}", ent_name(ei, e))),
                }
            }
        }
        Ok(())
    }
}

/// A brush's convex points: exactly its corners.
fn check_points(points: &[sut::V3], b: &GBrush) -> Check {
    let corners = b.corners();
    match_corners(points, &corners)?;
    let distinct = tri::distinct(points.iter().map(|p| tri::b3(*p)));
    if distinct != points.len() {
        return Err(format!("a position is listed twice: {points:?}"));
    }
    if b.dyadic() && points.len() != corners.len() {
        return Err(format!("{} points for {} corners: {points:?}", points.len(), corners.len()));
    }
    Ok(())
}

pub struct C16;
impl Prop for C16 {
    type Case = Painted;
    const ID: &'static str = "C16";
    const CASES: (u64, u64) = (72_000, 1_080_000);
    const RULE: &'static str = "brush maps of all shapes with convex collision and random textures, tables, blacklists and phong; shapes are compared with the reference hull's corners and centres (exact count where all corners are exact in single precision); plus 5000 boxes; non-trivial: an entity of at least two brushes or a brush that is not a box";
    fn strategy(_: bool) -> BoxedStrategy<Painted> {
        painted(geom::brush, true)
    }
    fn fixed(_: bool) -> Vec<Painted> {
        let mut v = vec![Painted::big(5000, false)];
        v.extend(super::geo::fixed_docs().into_iter().map(|ents| Painted { ents, paint: Painted::big(0, true).paint, more: 0 }));
        v
    }
    fn check(c: &Painted, obs: &mut Obs) -> Check {
        let doc = c.doc();
        observe(c, &doc, obs);
        let tree = sut::run_ok(&text(&doc), &c.paint.cfg(1))?;
        for (ei, (n, e)) in flat_actors(&tree, &doc)?.iter().zip(&doc).enumerate() {
            obs.nontrivial(e.brushes.len() > 1 || e.brushes.iter().any(|b| b.geo.kind != "box"));
            let shapes = match collision(n) {
                Some(Coll::Convex(s)) => s.as_slice(),
                None if e.brushes.is_empty() => &[],
                other => return Err(format!("{}: collision is {}", ent_name(ei, e), coll_kind(other))),
            };
            if shapes.len() != e.brushes.len() {
                return Err(format!("{}: {} shapes for {} brushes", ent_name(ei, e), shapes.len(), e.brushes.len()));
            }
            for (bi, ((center, points), b)) in shapes.iter().zip(&e.brushes).enumerate() {
                obs.label(&format!("brush: {}", b.geo.kind));
                let at = |m: String| format!("{}, brush {bi} ({}): {m}", ent_name(ei, e), b.geo.kind);
                check_points(points, &b.geo).map_err(at)?;
                let (want, got) = (b.geo.center(), geom::d3(*center));
                if !crate::scene::close(want, got, b.geo.max_coord()) {
                    return Err(at(format!("centre {got:?} instead of {want:?}")));
                }
            }
        }
        Ok(())
    }
}
fn coll_kind(c: Option<&Coll>) -> &'static str {
    match c {
        None => "missing",
        Some(Coll::None) => "an empty node",
        Some(Coll::Convex(_)) => "convex",
        Some(Coll::Concave(_)) => "concave",
    }
}

/// Six times the signed volume of triangles that wind clockwise from outside.
fn volume(t: &[tri::PTri], o: geom::D3) -> f64 {
    t.iter()
        .map(|t| {
            let p = t.map(|p| geom::sub(geom::d3(tri::f3(p)), o));
            -geom::dot(p[0], geom::cross(p[1], p[2])) / 6.0
        })
        .sum()
}
/// One concave shape against the face triangles of brushes.
fn check_concave(verts: &[sut::V3], idx: &[usize], brushes: &[Vec<FaceRef>]) -> Check {
    let got = tri::index_triangles(verts, idx)?;
    let mut want: Vec<tri::PTri> = brushes.iter().flatten().flat_map(|f| tri::positions(&f.tris)).collect();
    want.sort();
    if let Some(d) = tri::differ(&want, &got) {
        return Err(format!("triangles (position bits) {d}"));
    }
    let n: usize = brushes.iter().map(|b| tri::distinct(b.iter().flat_map(|f| f.verts.iter().map(|v| v.p)))).sum();
    if verts.len() != n {
        return Err(format!("{} vertices where the brushes have {n} different positions", verts.len()));
    }
    // brushes are the connected parts: no vertex belongs to two of them
    let mut root: Vec<usize> = (0..verts.len()).collect();
    fn find(r: &mut [usize], mut i: usize) -> usize {
        while r[i] != i {
            r[i] = r[r[i]];
            i = r[i];
        }
        i
    }
    for t in idx.chunks(3) {
        let (a, b, c) = (find(&mut root, t[0]), find(&mut root, t[1]), find(&mut root, t[2]));
        root[b] = a;
        let c = find(&mut root, c);
        let a = find(&mut root, a);
        root[c] = a;
    }
    let parts: BTreeSet<usize> = (0..verts.len()).map(|i| find(&mut root, i)).collect();
    let full = brushes.iter().filter(|b| b.iter().any(|f| !f.tris.is_empty())).count();
    if parts.len() != full {
        return Err(format!("{} connected parts for {full} brushes", parts.len()));
    }
    let twice = tri::distinct((0..verts.len()).map(|i| (find(&mut root, i), tri::b3(verts[i]))));
    if twice != verts.len() {
        return Err("a brush lists a position twice".into());
    }
    Ok(())
}

pub struct C17;
impl Prop for C17 {
    type Case = Painted;
    const ID: &'static str = "C17";
    const CASES: (u64, u64) = (48_000, 720_000);
    const RULE: &'static str = "brush maps of all shapes with concave collision and random textures, tables and blacklists: triangles equal the face triangles of the run with every face on its own, enclose the brushes' volume, one connected part per brush, no position twice in a part; plus 9000 boxes (more than 65536 vertices); non-trivial: an entity of at least two brushes or a brush that is not a box";
    fn strategy(_: bool) -> BoxedStrategy<Painted> {
        painted(geom::brush, true)
    }
    fn fixed(_: bool) -> Vec<Painted> {
        let mut v = vec![Painted::big(9000, true)];
        v.extend(super::geo::fixed_docs().into_iter().map(|ents| Painted { ents, paint: Painted::big(0, true).paint, more: 0 }));
        v
    }
    fn check(c: &Painted, obs: &mut Obs) -> Check {
        let doc = c.doc();
        observe(c, &doc, obs);
        let refs = tri::reference(&doc, &tex_size)?;
        let tree = sut::run_ok(&text(&doc), &c.paint.cfg(2))?;
        for (ei, (n, e)) in flat_actors(&tree, &doc)?.iter().zip(&doc).enumerate() {
            obs.nontrivial(e.brushes.len() > 1 || e.brushes.iter().any(|b| b.geo.kind != "box"));
            let at = |m: String| format!("{}: {m}", ent_name(ei, e));
            let (verts, idx) = match collision(n) {
                Some(Coll::Concave(s)) if s.len() == 1 => (&s[0].1, &s[0].2),
                None if e.brushes.is_empty() => continue,
                Some(Coll::Concave(s)) => return Err(at(format!("{} concave shapes", s.len()))),
                other => return Err(at(format!("collision is {}", coll_kind(other)))),
            };
            check_concave(verts, idx, &refs[ei]).map_err(at)?;
            if e.brushes.len() > 100 {
                continue;
            }
            // against the exact brushes
            let t = tri::index_triangles(verts, idx)?;
            let want: f64 = e.brushes.iter().map(|b| b.geo.volume()).sum();
            let o = geom::mean(&e.brushes.iter().map(|b| b.geo.center()).collect::<Vec<_>>());
            let got = volume(&t, o);
            let m = e.brushes.iter().fold(1.0f64, |a, b| a.max(b.geo.max_coord()));
            let area: f64 = t
                .iter()
                .map(|t| {
                    let p = t.map(|p| geom::d3(tri::f3(p)));
                    geom::len(geom::cross(geom::sub(p[1], p[0]), geom::sub(p[2], p[0]))) / 2.0
                })
                .sum();
            if (got - want).abs() > 1e-6 * want + area * (1e-4 + 4e-7 * m) {
                return Err(at(format!("encloses a volume of {got} instead of {want}")));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Liquid {
    ents: Vec<Ent>,
    layers: Vec<LayerDef>,
    water_known: bool,
    slime_known: bool,
    /// worldspawn before or after the others in the file
    last: bool,
    mesh: bool,
    coll: u8,
}
fn layer_s() -> BoxedStrategy<LayerDef> {
    (
        prop_oneof![
            4 => Just("*water0"), 4 => Just("*slime0"), 1 => Just("*lava1"), 1 => Just("brick"), 1 => Just("*WATER0"),
        ],
        crate::scene::etype_s(),
        crate::scene::script_s(),
        prop_oneof![3 => Just(true), 1 => Just(false)],
        0u8..3,
    )
        .prop_map(|(t, etype, script, mesh, coll)| LayerDef { name: String::new(), texture: t.into(), etype, script, mesh, coll })
        .boxed()
}
fn liquid() -> BoxedStrategy<Liquid> {
    (
        geo_doc(geom::plain, 5),
        prop::collection::vec((any::<u8>(), any::<u8>()), 1..8),
        prop::collection::vec(layer_s(), 0..4),
        (0u8..8, 0u8..8, any::<bool>(), 0u8..8, 0u8..3),
    )
        .prop_map(|(mut ents, picks, mut layers, (wk, sk, last, mesh, coll))| {
            let mut i = 0;
            for e in &mut ents {
                for b in &mut e.brushes {
                    let (p, q) = picks[i % picks.len()];
                    i += 1;
                    let n = b.faces.len();
                    for (j, f) in b.faces.iter_mut().enumerate() {
                        let odd = q as usize % n == j;
                        f.tex = match p % 11 {
                            0 | 1 => "*water0",
                            2 | 3 => "*slime0",
                            4 => ["*WATER0", "*water0", "*Water0"][j % 3],
                            5 => if odd { "brick" } else { "*water0" },
                            6 => if odd { "*water0" } else { "*slime0" },
                            7 => if odd { "*slime0" } else { "brick" },
                            8 => ["*water1", "*water", "water0", "*slime"][q as usize % 4],
                            9 => if odd { "*water1" } else { "*water0" },
                            _ => TEX[(q as usize + j / 2) % TEX.len()],
                        }
                        .to_string();
                    }
                }
            }
            for (i, l) in layers.iter_mut().enumerate() {
                l.name = format!("Layer {i}");
            }
            Liquid { ents, layers, water_known: wk > 0, slime_known: sk > 0, last, mesh: mesh > 0, coll }
        })
        .boxed()
}
/// The layer a worldspawn brush belongs to.
fn layer_of(b: &Brush, c: &Liquid) -> Option<&'static str> {
    for (t, known) in [("*water0", c.water_known), ("*slime0", c.slime_known)] {
        if known && b.faces.iter().all(|f| f.tex.to_lowercase() == t) {
            return Some(t);
        }
    }
    None
}

pub struct C18;
impl Prop for C18 {
    type Case = Liquid;
    const ID: &'static str = "C18";
    const CASES: (u64, u64) = (96_000, 1_440_000);
    const RULE: &'static str = "maps whose brushes are all water, all slime, nearly so, mixtures or ordinary (any letter case), in worldspawn and other entities; water and slime with or without size; 0-3 layer definitions over these and other textures, all kinds of visuals and collision; every brush is looked for in worldspawn, in the layers and in its entity by its triangles and its collision; non-trivial: a liquid worldspawn brush and an ordinary one";
    fn strategy(_: bool) -> BoxedStrategy<Liquid> {
        liquid()
    }
    fn fixed(_: bool) -> Vec<Liquid> {
        // hundreds of liquid brushes, dozens of layers
        let mut w = Ent::new("worldspawn");
        for i in 0..700i64 {
            let mut b = plain_brush(geom::simple_box([i % 32 * 40, i / 32 * 40, 0], [16 + i % 5, 24, 8 + i % 7]));
            set_texture(&mut b, ["*water0", "brick", "*slime0", "*water0"][i as usize % 4]);
            w.brushes.push(b);
        }
        let layer = |i: usize, t: &str, mesh, coll| LayerDef {
            name: format!("Layer {i}"),
            texture: t.into(),
            etype: crate::sut::EType::Placeholder,
            script: None,
            mesh,
            coll,
        };
        (0..3u8)
            .map(|coll| {
                let mut layers: Vec<LayerDef> = (0..70).map(|i| layer(i, &format!("*lava{i}"), true, 1)).collect();
                layers.push(layer(70, "*water0", true, coll));
                layers.push(layer(71, "*slime0", coll > 0, 2 - coll));
                Liquid { ents: vec![w.clone()], layers, water_known: true, slime_known: true, last: false, mesh: true, coll: 1 }
            })
            .collect()
    }
    fn check(c: &Liquid, obs: &mut Obs) -> Check {
        let mut cfg = basic_cfg(c.coll);
        for d in &mut cfg.classes {
            d.brush = Some((c.mesh, c.coll));
        }
        cfg.layers = c.layers.clone();
        add_textures(&mut cfg, &c.ents);
        cfg.textures.retain(|t| match t.0.as_str() {
            "*water0" => c.water_known,
            "*slime0" => c.slime_known,
            _ => true,
        });
        let refs = tri::reference(&c.ents, &tex_size)?;
        let mut file = c.ents.clone();
        if c.last {
            file.rotate_left(1);
        }
        let tree = sut::run_ok(&text(&file), &cfg)?;
        let w = &c.ents[0];
        let moved = |t: &str| -> Vec<usize> { (0..w.brushes.len()).filter(|b| layer_of(&w.brushes[*b], c) == Some(t)).collect() };
        // expected layers
        let mut rest: Vec<&Node> = tree.iter().collect();
        let mut layers = 0;
        for t in ["*water0", "*slime0"] {
            let defs: Vec<&LayerDef> = c.layers.iter().filter(|l| l.texture == t).collect();
            let brushes = moved(t);
            obs.label(&format!("{t}: {} definitions, {} brushes", defs.len(), brushes.len().min(3)));
            if defs.len() != 1 {
                continue;
            }
            let d = defs[0];
            let shows = !brushes.is_empty() && (d.mesh || d.coll > 0);
            let at = |m: String| format!("layer {t}: {m}");
            let pos = rest.iter().position(|n| matches!(&n.data, Data::Actor(a, _) if a.name == d.name));
            let n = match pos {
                Some(p) => rest.remove(p),
                None if shows => return Err(at("no node".into())),
                None => continue,
            };
            if !shows {
                return Err(at("a node with nothing to show".into()));
            }
            layers += 1;
            let a = actor(n);
            if a.etype != d.etype || a.comp != d.script {
                return Err(at(format!("type {:?} and script {:?} instead of {:?} and {:?}", a.etype, a.comp, d.etype, d.script)));
            }
            if n.origin != [0.0; 3] {
                return Err(at(format!("at {:?}", n.origin)));
            }
            let faces: Vec<(usize, &FaceRef)> = brushes.iter().flat_map(|b| refs[0][*b].iter().map(move |f| (*b, f))).collect();
            match (d.mesh, has_visual(n)) {
                (true, true) => {
                    let m = by_texture(n).map_err(at)?;
                    if m.len() != 1 || !m.contains_key(&Some(t.to_string())) {
                        return Err(at(format!("surfaces {:?}", m.keys())));
                    }
                    same_attributes(m[&Some(t.to_string())], &faces).map_err(at)?;
                }
                (false, false) => (),
                (want, _) => return Err(at(format!("visual node {}", if want { "missing" } else { "not asked for" }))),
            }
            let geo: Vec<&Brush> = brushes.iter().map(|b| &w.brushes[*b]).collect();
            let fr: Vec<Vec<FaceRef>> = brushes.iter().map(|b| refs[0][*b].clone()).collect();
            check_coll(d.coll, collision(n), &geo, &fr).map_err(at)?;
        }
        if tree.len() != layers + rest.len() || rest.len() != c.ents.len() {
            return Err(format!("{} top nodes for {} entities and {layers} layers", tree.len(), c.ents.len()));
        }
        // worldspawn without the moved brushes, other entities whole
        for (ei, (n, e)) in rest.iter().zip(&c.ents).enumerate() {
            let at = |m: String| format!("{}: {m}", ent_name(ei, e));
            if actor(n).name != e.class() {
                return Err(at(format!("actor {:?} instead", actor(n).name)));
            }
            let stay: Vec<usize> = (0..e.brushes.len()).filter(|b| ei > 0 || layer_of(&e.brushes[*b], c).is_none()).collect();
            obs.nontrivial(ei == 0 && !stay.is_empty() && stay.len() < e.brushes.len());
            obs.label_if(ei > 0 && e.brushes.iter().any(|b| layer_of(b, c).is_some()), "liquid brush in another entity");
            let mut want: Vec<tri::PTri> =
                stay.iter().flat_map(|b| refs[ei][*b].iter().flat_map(|f| tri::positions(&f.tris))).collect();
            want.sort();
            if c.mesh {
                let mut got = vec![];
                for s in surfaces(n) {
                    got.extend(tri::positions(&tri::triangles(s).map_err(at)?));
                }
                got.sort();
                if let Some(d) = tri::differ(&want, &got) {
                    return Err(at(format!("visual triangles (position bits) {d}")));
                }
            } else if has_visual(n) {
                return Err(at("visual node not asked for".into()));
            }
            let geo: Vec<&Brush> = stay.iter().map(|b| &e.brushes[*b]).collect();
            let fr: Vec<Vec<FaceRef>> = stay.iter().map(|b| refs[ei][*b].clone()).collect();
            // nothing is left to collide with where all brushes moved
            check_coll(if geo.is_empty() { 0 } else { c.coll }, collision(n), &geo, &fr).map_err(at)?;
        }
        Ok(())
    }
}
/// Collision of the configured kind, for at least one brush.
fn check_coll(kind: u8, got: Option<&Coll>, brushes: &[&Brush], refs: &[Vec<FaceRef>]) -> Check {
    match (kind, got) {
        (0, None) => Ok(()),
        (1, Some(Coll::Convex(s))) => {
            if s.len() != brushes.len() {
                return Err(format!("{} convex shapes for {} brushes", s.len(), brushes.len()));
            }
            s.iter().zip(brushes).try_for_each(|((_, p), b)| check_points(p, &b.geo))
        }
        (2, Some(Coll::Concave(s))) if s.len() == 1 => check_concave(&s[0].1, &s[0].2, refs),
        (k, c) => Err(format!("collision is {} where kind {k} was asked for", coll_kind(c))),
    }
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dialects {
    ents: Vec<Ent>,
    /// alternative alignment, per face (cycled)
    other: Vec<Align>,
    paint: Paint,
}
pub struct C19;
impl C19 {
    fn variant(c: &Dialects, want_valve: Option<bool>, extra: bool) -> Vec<Ent> {
        let mut ents = c.ents.clone();
        let mut k = 0;
        for f in ents.iter_mut().flat_map(|e| &mut e.brushes).flat_map(|b| &mut b.faces) {
            let valve = matches!(f.align, Align::Valve { .. });
            if let Some(w) = want_valve {
                if valve != w {
                    f.align = match &c.other[k % c.other.len()] {
                        a if matches!(a, Align::Valve { .. }) == w => a.clone(),
                        _ if w => Align::Valve { u: [1.0, 0.0, 0.0], uo: 3.0, v: [0.0, 0.0, -1.0], vo: -4.0 },
                        _ => Align::Std { off: [5.0, -6.0] },
                    };
                }
            }
            if !extra {
                f.extra = Extra::None;
            }
            k += 1;
        }
        ents
    }
}
impl Prop for C19 {
    type Case = Dialects;
    const ID: &'static str = "C19";
    const CASES: (u64, u64) = (40_000, 600_000);
    const RULE: &'static str = "brush maps written in mixtures of the eight dialects, compared with the same map all standard and all Valve without extra values: same corners, normals and triangles per face, same texture coordinates and tangents per alignment; colours exactly as written, on surfaces of one face and of many; non-trivial: a map with at least three dialects";
    fn strategy(_: bool) -> BoxedStrategy<Dialects> {
        (
            prop_oneof![geo_doc(geom::brush, 3), geo_doc(geom::plain, 3)],
            prop::collection::vec(align_s(), 1..6),
            paint(false),
            any::<u8>(),
            crate::mapdoc::color_s(),
        )
            .prop_map(|(mut ents, other, paint, m, col)| {
                let mut k = 0usize;
                for f in ents.iter_mut().flat_map(|e| &mut e.brushes).flat_map(|b| &mut b.faces) {
                    if m % 3 == 0 && (m % 2 == 0 || k % 11 != 10) {
                        f.extra = Extra::Six(k as i32, -1, 0.5, [col[k % 3], col[(k + 1) % 3], col[2] / 7.0]);
                    }
                    k += 1;
                }
                Dialects { ents, other, paint }
            })
            .boxed()
    }
    fn check(c: &Dialects, obs: &mut Obs) -> Check {
        let mut kinds = BTreeSet::new();
        for f in c.ents.iter().flat_map(|e| &e.brushes).flat_map(|b| &b.faces) {
            let k = format!(
                "{}{}",
                if matches!(f.align, Align::Std { .. }) { "standard" } else { "valve" },
                match f.extra {
                    Extra::None => "",
                    Extra::One(_) => " +1",
                    Extra::Three(..) => " +3",
                    Extra::Six(..) => " +6",
                }
            );
            obs.label(&format!("face: {k}"));
            kinds.insert(k);
        }
        obs.nontrivial(kinds.len() >= 3);
        let mut cfg = basic_cfg(0);
        add_textures(&mut cfg, &c.ents);
        let docs = [
            c.ents.clone(),
            Self::variant(c, Some(false), false),
            Self::variant(c, Some(true), false),
            Self::variant(c, None, false),
        ];
        let mut trees = vec![];
        for d in &docs {
            trees.push(sut::run_ok(&text(d), &cfg)?);
        }
        let mut views = vec![];
        for (t, d) in trees.iter().zip(&docs) {
            views.push(face_views(t, d)?);
        }
        for i in 0..views[0].len() {
            let v = &views[0][i];
            let at = |m: &str| Err(format!("{}: {m}", v.name()));
            for (k, w) in views.iter().enumerate().skip(1) {
                let (a, b) = match (v.surf, w[i].surf) {
                    (Some(a), Some(b)) => (a, b),
                    (None, None) => continue,
                    _ => return at("geometry depends on the dialect"),
                };
                let same_align = docs[k].as_slice().iter().flat_map(|e| &e.brushes).flat_map(|b| &b.faces).nth(i).map(|f| &f.align)
                    == Some(&v.face().align);
                if a.verts != b.verts || a.normals != b.normals || a.indices != b.indices {
                    return at(&format!("geometry depends on the dialect: {a:?} against {b:?}"));
                }
                if same_align && (a.uvs != b.uvs || a.tangents != b.tangents) {
                    return at(&format!("texture coordinates depend on extra values: {a:?} against {b:?}"));
                }
                if b.colors.is_some() {
                    return at("colours without any in the map");
                }
            }
            if let Some(s) = v.surf {
                match (&v.face().extra, &s.colors) {
                    (Extra::Six(_, _, _, col), Some(c)) => {
                        if c.len() != s.verts.len() || c.iter().any(|x| tri::b3(*x) != tri::b3(*col)) {
                            return at(&format!("colours {c:?} instead of {col:?}"));
                        }
                    }
                    (Extra::Six(..), None) => return at("colour lost"),
                    (_, None) => (),
                    (e, Some(c)) => return at(&format!("colours {c:?} from extra values {e:?}")),
                }
            }
        }
        // shared surfaces: colours exactly when all their faces have one
        let mut doc = c.ents.clone();
        c.paint.apply(&mut doc);
        let refs = tri::reference(&doc, &tex_size)?;
        let tree = sut::run_ok(&text(&doc), &c.paint.cfg(0))?;
        for (ei, (n, e)) in flat_actors(&tree, &doc)?.iter().zip(&doc).enumerate() {
            for (t, s) in by_texture(n)? {
                let faces: Vec<(usize, usize)> = expected_surfaces(e, &c.paint)
                    .remove(&t)
                    .unwrap_or_default()
                    .into_iter()
                    .filter(|(b, f)| !e.brushes[*b].geo.faces[*f].poly.is_empty())
                    .collect();
                let all = faces.iter().all(|(b, f)| matches!(e.brushes[*b].faces[*f].extra, Extra::Six(..)));
                let any = faces.iter().any(|(b, f)| matches!(e.brushes[*b].faces[*f].extra, Extra::Six(..)));
                obs.label(match (all, any) {
                    (true, _) => "surface: all faces coloured",
                    (_, true) => "surface: some faces coloured",
                    _ => "surface: no colours",
                });
                if s.colors.is_some() != all {
                    return Err(format!(
                        "{}, surface {t:?}: colours {} although {} of its faces have one",
                        ent_name(ei, e),
                        if all { "missing" } else { "present" },
                        if all { "all" } else { "not all" }
                    ));
                }
                if all {
                    let key = |t: &Tri| tri::turn([0, 1, 2].map(|i| (t[i].p, t[i].c)));
                    let mut want: Vec<_> =
                        faces.iter().flat_map(|(b, f)| refs[ei][*b][*f].tris.iter().map(key)).collect();
                    let mut got: Vec<_> = tri::triangles(s)?.iter().map(key).collect();
                    want.sort();
                    got.sort();
                    if let Some(d) = tri::differ(&want, &got) {
                        return Err(format!("{}, surface {t:?}: coloured triangles {d}", ent_name(ei, e)));
                    }
                }
            }
        }
        Ok(())
    }
}
