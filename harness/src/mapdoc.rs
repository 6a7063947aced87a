//! Map documents: entities, brushes and faces, their text, and reference
//! values for what the crate should make of them.
use crate::geom::{self, GBrush, D3};
use crate::sut::{Cfg, ClassDef, EType, Node, Pat, Surf, V3};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Align {
    Std { off: [f32; 2] },
    Valve { u: V3, uo: f32, v: V3, vo: f32 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Extra {
    None,
    One(f32),
    Three(i32, i32, f32),
    Six(i32, i32, f32, V3),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Face {
    pub tex: String,
    pub align: Align,
    pub rot: f32,
    pub scale: [f32; 2],
    pub extra: Extra,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Brush {
    pub geo: GBrush,
    /// one per plane
    pub faces: Vec<Face>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Ent {
    pub props: Vec<(String, String)>,
    pub brushes: Vec<Brush>,
}
impl Ent {
    pub fn new(class: &str) -> Ent {
        Ent {
            props: vec![("classname".into(), class.into())],
            brushes: vec![],
        }
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.props.iter().rev().find(|p| p.0 == k).map(|p| p.1.as_str())
    }
    pub fn class(&self) -> &str {
        self.get("classname").unwrap_or("")
    }
    pub fn with(mut self, k: &str, v: impl ToString) -> Ent {
        self.props.push((k.into(), v.to_string()));
        self
    }
    /// Map position: origin, or the mean of the brush centres.
    pub fn center(&self) -> D3 {
        match self.get("origin") {
            Some(o) => {
                let mut it = o.split(' ');
                [0, 1, 2].map(|_| it.next().and_then(|s| s.parse::<f32>().ok()).unwrap_or(0.0) as f64)
            }
            None => geom::mean(&self.brushes.iter().map(|b| b.geo.center()).collect::<Vec<_>>()),
        }
    }
}

pub fn point_text(p: [f32; 3]) -> String {
    format!("( {} {} {} )", p[0], p[1], p[2])
}
pub fn align_text(f: &Face) -> String {
    match &f.align {
        Align::Std { off } => format!("{} {}", off[0], off[1]),
        Align::Valve { u, uo, v, vo } => format!(
            "[ {} {} {} {} ] [ {} {} {} {} ]",
            u[0], u[1], u[2], uo, v[0], v[1], v[2], vo
        ),
    }
}
pub fn extra_text(e: &Extra) -> String {
    match e {
        Extra::None => String::new(),
        Extra::One(a) => format!(" {a}"),
        Extra::Three(a, b, c) => format!(" {a} {b} {c}"),
        Extra::Six(a, b, c, d) => format!(" {a} {b} {c} {} {} {}", d[0], d[1], d[2]),
    }
}
pub fn face_text(pts: &[[f32; 3]; 3], f: &Face) -> String {
    format!(
        "{} {} {} {} {} {} {} {}{}",
        point_text(pts[0]),
        point_text(pts[1]),
        point_text(pts[2]),
        f.tex,
        align_text(f),
        f.rot,
        f.scale[0],
        f.scale[1],
        extra_text(&f.extra)
    )
}
pub fn ent_lines(e: &Ent, out: &mut Vec<String>) {
    out.push("{".into());
    for (k, v) in &e.props {
        out.push(format!("\"{k}\" \"{v}\""));
    }
    for b in &e.brushes {
        out.push("{".into());
        for (g, f) in b.geo.faces.iter().zip(&b.faces) {
            out.push(face_text(&g.pts, f));
        }
        out.push("}".into());
    }
    out.push("}".into());
}
pub fn text(ents: &[Ent]) -> String {
    let mut l = vec![];
    for e in ents {
        ent_lines(e, &mut l);
    }
    l.join("\n") + "\n"
}

// ---------------------------------------------------------------- configs

pub fn class(name: &str, brush: Option<(bool, u8)>) -> ClassDef {
    ClassDef {
        name: name.into(),
        brush,
        etype: EType::Class("Node".into()),
        script: None,
        pat: Pat::Properties,
    }
}
/// Worldspawn and func_* as mesh brush entities, with the given collision.
pub fn basic_cfg(coll: u8) -> Cfg {
    Cfg {
        classes: vec![
            class("worldspawn", Some((true, coll))),
            class("func_detail", Some((true, coll))),
        ],
        ..Cfg::default()
    }
}
/// Adds every texture of the map to the table, sized from its name.
pub fn add_textures(cfg: &mut Cfg, ents: &[Ent]) {
    for e in ents {
        for b in &e.brushes {
            for f in &b.faces {
                let n = f.tex.to_lowercase();
                if !cfg.textures.iter().any(|t| t.0 == n) {
                    let (w, h) = tex_size(&n);
                    cfg.textures.push((n, w, h));
                }
            }
        }
    }
}
pub fn tex_size(name: &str) -> (u32, u32) {
    let mut h: u64 = 1469598103934665603;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    let s = [16u32, 32, 64, 128, 256, 48, 96, 100, 512, 1, 333, 65600, 1 << 24, u32::MAX];
    (s[(h >> 8) as usize % s.len()], s[(h >> 24) as usize % s.len()])
}

/// Unique (per face) texture names in the shapes maps use.
pub fn unique_name(style: u8, id: usize) -> String {
    match style % 15 {
        0 => format!("t{id}"),
        1 => format!("*lava{id}"),
        2 => format!("{{fence{id}"),
        3 => format!("+{}button_{id}", id % 10),
        4 => format!("Base/Wall_{id}"),
        5 => format!("{}", 1000 + id),
        6 => format!("-0Rock{id}-x"),
        7 => format!("a_rather_long_texture_name_for_face_number_{id}"),
        8 => format!("sky{id}"),
        10 => format!("Wände/Öl_{id}"),
        11 => format!("Стена{id}"),
        13 => format!("{}ß日é_{id}", "a".repeat(id * 13 % 130)),
        14 => format!("textures/castle_of_the_north/courtyard/walls_and_floors/{}brick_{id}", "old_".repeat(id % 7 * id % 61)),
        12 => format!("x//y(\"{id}\");[#]"),
        _ => format!("TECH~{id}.png"),
    }
}

/// Names around the lengths that buffers have.
pub const LENGTHS: [usize; 24] = [
    15, 16, 17, 31, 32, 33, 63, 64, 65, 80, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 2049, 4096, 5000, 70_000,
];
/// Long texts of one piece; what differs is often only at the end.
pub fn long_s() -> BoxedStrategy<String> {
    ("[a-z]", prop::sample::select(LENGTHS.to_vec()), "[a-z0-9]{1,4}")
        .prop_map(|(a, n, b)| a.repeat(n.saturating_sub(b.len())) + &b)
        .boxed()
}

// ---------------------------------------------------------------- strategies

pub fn dy(range: std::ops::Range<i32>, den: f32) -> BoxedStrategy<f32> {
    range.prop_map(move |v| v as f32 / den).boxed()
}

pub fn scale_s() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => Just(1.0f32),
        3 => prop::sample::select(vec![0.25f32, 0.5, 2.0, -1.0, -0.5, 0.1, 3.0, -2.5, 1.25]),
        1 => (1i32..400, any::<bool>()).prop_map(|(v, s)| {
            let x = v as f32 / 64.0;
            if s { -x } else { x }
        }),
    ]
    .boxed()
}
pub fn rot_s() -> BoxedStrategy<f32> {
    prop_oneof![
        3 => Just(0.0f32),
        3 => prop::sample::select(vec![90.0f32, 180.0, 270.0, -90.0, 45.0, 30.0, -15.0, 360.0]),
        2 => dy(-7200..7200, 10.0),
    ]
    .boxed()
}
pub fn off_s() -> BoxedStrategy<f32> {
    prop_oneof![2 => Just(0.0f32), 3 => (-512i32..512).prop_map(|v| v as f32), 1 => dy(-9999..9999, 16.0)].boxed()
}
fn axis_s() -> BoxedStrategy<V3> {
    prop_oneof![
        3 => prop::sample::select(vec![
            [1.0f32, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0],
            [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0],
            [0.6, 0.8, 0.0], [0.0, -0.6, 0.8], [0.8, 0.0, -0.6],
        ]),
        2 => prop::array::uniform3(-10i32..11).prop_map(|v| {
            let v = v.map(|c| c as f32 / 8.0);
            if v == [0.0; 3] { [1.0, 0.0, 0.0] } else { v }
        }),
    ]
    .boxed()
}
pub fn align_s() -> BoxedStrategy<Align> {
    prop_oneof![
        1 => (off_s(), off_s()).prop_map(|(a, b)| Align::Std { off: [a, b] }),
        1 => (axis_s(), off_s(), axis_s(), off_s())
            .prop_map(|(u, uo, v, vo)| Align::Valve { u, uo, v, vo }),
    ]
    .boxed()
}
/// Colours of faces: anything, often black, white or with components at the ends of the range.
pub fn color_s() -> BoxedStrategy<[f32; 3]> {
    let c = || prop_oneof![4 => dy(0..1025, 4.0), 1 => Just(0.0f32), 1 => Just(1.0f32), 1 => Just(255.0f32)];
    prop_oneof![
        4 => prop::array::uniform3(c()),
        1 => Just([0.0; 3]),
        1 => prop_oneof![Just([1.0f32; 3]), Just([255.0f32; 3]), c().prop_map(|v| [v; 3])],
    ]
    .boxed()
}
pub fn extra_s() -> BoxedStrategy<Extra> {
    let i = || prop_oneof![Just(0i32), -5i32..300, any::<i32>()];
    prop_oneof![
        3 => Just(Extra::None),
        1 => dy(-100..1000, 4.0).prop_map(Extra::One),
        1 => (i(), i(), dy(-100..1000, 4.0)).prop_map(|(a, b, c)| Extra::Three(a, b, c)),
        1 => (i(), i(), dy(-100..1000, 4.0), color_s())
            .prop_map(|(a, b, c, d)| Extra::Six(a, b, c, d)),
    ]
    .boxed()
}
/// Alignment etc. of a face; the texture is filled in later.
pub fn face_s() -> BoxedStrategy<Face> {
    (align_s(), rot_s(), scale_s(), scale_s(), extra_s())
        .prop_map(|(align, rot, sx, sy, extra)| Face {
            tex: String::new(),
            align,
            rot,
            scale: [sx, sy],
            extra,
        })
        .boxed()
}
/// Brush with faces cycled from a few random ones (texture names unset).
pub fn brush_with(geo: BoxedStrategy<GBrush>) -> BoxedStrategy<Brush> {
    (geo, prop::collection::vec(face_s(), 1..8))
        .prop_map(|(geo, fs)| {
            let faces = (0..geo.faces.len()).map(|i| fs[i % fs.len()].clone()).collect();
            Brush { geo, faces }
        })
        .boxed()
}
/// Gives every face of the map a texture name of its own.
pub fn make_unique(ents: &mut [Ent], style: u8) {
    let mut id = 0;
    for e in ents {
        for b in &mut e.brushes {
            for f in &mut b.faces {
                f.tex = unique_name(style.wrapping_add((id % 3) as u8), id);
                id += 1;
            }
        }
    }
}
pub fn set_texture(b: &mut Brush, t: &str) {
    for f in &mut b.faces {
        f.tex = t.into();
    }
}

/// worldspawn and up to two detail entities with the given brushes and
/// unique textures: the usual input of the geometry checks.
pub fn geo_doc(geo: fn() -> BoxedStrategy<GBrush>, max_brushes: usize) -> BoxedStrategy<Vec<Ent>> {
    (
        prop::collection::vec(brush_with(geo()), 0..=max_brushes),
        prop::collection::vec(prop::collection::vec(brush_with(geo()), 1..=max_brushes), 0..3),
        prop_oneof![
            8 => Just(None),
            3 => prop::array::uniform3(-300i32..300).prop_map(Some),
            1 => prop::array::uniform3(prop_oneof![2 => -60000i32..60000, 1 => Just(0)]).prop_map(Some)
        ],
        any::<u8>(),
    )
        .prop_map(|(w, det, origin, style)| {
            let mut ents = vec![Ent { brushes: w, ..Ent::new("worldspawn") }];
            for d in det {
                ents.push(Ent { brushes: d, ..Ent::new("func_detail") });
            }
            if let Some(o) = origin {
                let e = ents.last_mut().unwrap();
                e.props.push(("origin".into(), format!("{} {} {}", o[0], o[1], o[2])));
            }
            if style & 0x30 == 0x30 {
                for e in &mut ents {
                    e.props.push(("_phong".into(), "1".into()));
                }
            }
            make_unique(&mut ents, style);
            ents
        })
        .boxed()
}

// ---------------------------------------------------------------- tree access

pub fn actors<'a>(nodes: &'a [Node], out: &mut Vec<&'a Node>) {
    for n in nodes {
        if let crate::sut::Data::Actor(_, ch) = &n.data {
            out.push(n);
            actors(ch, out);
        }
    }
}
pub fn actor(n: &Node) -> &crate::sut::Actor {
    match &n.data {
        crate::sut::Data::Actor(a, _) => a,
        _ => panic!("not an actor"),
    }
}
pub fn children(n: &Node) -> &[Node] {
    match &n.data {
        crate::sut::Data::Actor(_, c) => c,
        _ => &[],
    }
}
pub fn surfaces(n: &Node) -> Vec<&Surf> {
    children(n)
        .iter()
        .filter_map(|c| match &c.data {
            crate::sut::Data::Visual(Some(s)) => Some(s.iter()),
            _ => None,
        })
        .flatten()
        .collect()
}
pub fn collision(n: &Node) -> Option<&crate::sut::Coll> {
    children(n).iter().find_map(|c| match &c.data {
        crate::sut::Data::Coll(c) => Some(c),
        _ => None,
    })
}
/// Actors of a map without groups and layers: worldspawn first, then file order.
pub fn flat_actors<'a>(tree: &'a [Node], ents: &[Ent]) -> Result<Vec<&'a Node>, String> {
    let mut v = vec![];
    actors(tree, &mut v);
    if v.len() != ents.len() {
        return Err(format!("{} actors for {} entities", v.len(), ents.len()));
    }
    for (n, e) in v.iter().zip(ents) {
        if actor(n).name != e.class() {
            return Err(format!("actor {:?} where {:?} was expected", actor(n).name, e.class()));
        }
    }
    Ok(v)
}

/// One face and its surface (unique textures).
pub struct FaceView<'a> {
    pub ent: usize,
    pub brush: &'a Brush,
    pub idx: usize,
    pub surf: Option<&'a Surf>,
}
impl<'a> FaceView<'a> {
    pub fn face(&self) -> &'a Face {
        &self.brush.faces[self.idx]
    }
    pub fn geo(&self) -> &'a geom::GFace {
        &self.brush.geo.faces[self.idx]
    }
    pub fn name(&self) -> String {
        format!(
            "face {} (texture {:?}) of a {} brush in entity {}",
            self.idx,
            self.face().tex,
            self.brush.geo.kind,
            self.ent
        )
    }
}
/// Every face with the surface carrying its (unique) texture.
pub fn face_views<'a>(tree: &'a [Node], ents: &'a [Ent]) -> Result<Vec<FaceView<'a>>, String> {
    let acts = flat_actors(tree, ents)?;
    let mut out = vec![];
    for (ei, (n, e)) in acts.iter().zip(ents).enumerate() {
        let sf = surfaces(n);
        for brush in &e.brushes {
            for idx in 0..brush.faces.len() {
                let t = brush.faces[idx].tex.to_lowercase();
                let mut m = sf.iter().filter(|s| s.texture.as_deref() == Some(t.as_str()));
                let surf = m.next().copied();
                if m.next().is_some() {
                    return Err(format!("two surfaces for texture {t:?}"));
                }
                out.push(FaceView { ent: ei, brush, idx, surf });
            }
        }
    }
    Ok(out)
}

/// For each vertex the corner it stands for; checks that the vertices are
/// exactly the face's corners.
pub fn match_corners(verts: &[V3], poly: &[D3]) -> Result<Vec<usize>, String> {
    let mut map = vec![];
    let mut hit = vec![0; poly.len()];
    for v in verts {
        let p = geom::d3(*v);
        let best = (0..poly.len()).min_by(|a, b| {
            geom::dist(p, poly[*a]).partial_cmp(&geom::dist(p, poly[*b])).unwrap_or(std::cmp::Ordering::Equal)
        });
        match best {
            Some(b) if geom::dist(p, poly[b]) <= geom::tol_at(poly[b]) => {
                hit[b] += 1;
                map.push(b);
            }
            _ => return Err(format!("vertex {v:?} is not a corner of the face; corners are {poly:?}")),
        }
    }
    if let Some(m) = hit.iter().position(|h| *h == 0) {
        return Err(format!("corner {:?} is missing; vertices are {verts:?}", poly[m]));
    }
    Ok(map)
}
