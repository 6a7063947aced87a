//! Convex brushes with exactly known polygons (the geometric reference).
use crate::hull::{self, P};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub type D3 = [f64; 3];

pub fn sub(a: D3, b: D3) -> D3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: D3, b: D3) -> D3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mul(a: D3, k: f64) -> D3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn dot(a: D3, b: D3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: D3, b: D3) -> D3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn len(a: D3) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: D3) -> D3 {
    mul(a, 1.0 / len(a))
}
pub fn dist(a: D3, b: D3) -> f64 {
    len(sub(a, b))
}
pub fn d3(v: [f32; 3]) -> D3 {
    [v[0] as f64, v[1] as f64, v[2] as f64]
}
pub fn mean(pts: &[D3]) -> D3 {
    let mut s = [0.0; 3];
    for p in pts {
        s = add(s, *p);
    }
    mul(s, 1.0 / pts.len().max(1) as f64)
}
/// Position tolerance: single-precision rounding with a margin.
pub fn tol_at(p: D3) -> f64 {
    5e-4 + 1.5e-6 * (p[0].abs() + p[1].abs() + p[2].abs())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GFace {
    /// The three points written to the map.
    pub pts: [[f32; 3]; 3],
    pub n: D3,
    pub d: f64,
    /// Corners counter-clockwise seen from outside; empty if the plane is redundant.
    pub poly: Vec<D3>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GBrush {
    pub kind: String,
    pub faces: Vec<GFace>,
}

impl GBrush {
    pub fn corners(&self) -> Vec<D3> {
        let mut v: Vec<D3> = vec![];
        for f in &self.faces {
            for p in &f.poly {
                if !v.iter().any(|q| dist(*p, *q) < 1e-6) {
                    v.push(*p);
                }
            }
        }
        v
    }
    pub fn face_centers(&self) -> Vec<D3> {
        self.faces
            .iter()
            .filter(|f| !f.poly.is_empty())
            .map(|f| mean(&f.poly))
            .collect()
    }
    pub fn center(&self) -> D3 {
        mean(&self.face_centers())
    }
    pub fn volume(&self) -> f64 {
        let o = self.center();
        let mut v = 0.0;
        for f in &self.faces {
            for i in 1..f.poly.len().max(1) - 1 {
                v += dot(
                    sub(f.poly[0], o),
                    cross(sub(f.poly[i], o), sub(f.poly[i + 1], o)),
                );
            }
        }
        v / 6.0
    }
    /// Faces whose plane passes through p.
    pub fn incident(&self, p: D3) -> Vec<usize> {
        (0..self.faces.len())
            .filter(|i| (dot(self.faces[*i].n, p) - self.faces[*i].d).abs() < 1e-6)
            .collect()
    }
    pub fn simple(&self) -> bool {
        self.corners().iter().all(|c| self.incident(*c).len() == 3)
    }
    /// Every corner coordinate is exact in single precision.
    pub fn dyadic(&self) -> bool {
        self.faces
            .iter()
            .all(|f| f.poly.iter().all(|p| p.iter().all(|c| *c as f32 as f64 == *c)))
    }
    /// Corners come out the same from any plane triple: exact and away from zero.
    pub fn exact(&self) -> bool {
        self.dyadic()
            && self
                .faces
                .iter()
                .all(|f| f.poly.iter().all(|p| p.iter().all(|c| c.abs() >= 1e-3 || *c == 0.0)))
    }
    pub fn max_coord(&self) -> f64 {
        self.faces
            .iter()
            .flat_map(|f| f.poly.iter())
            .flat_map(|p| p.iter())
            .fold(0.0f64, |a, c| a.max(c.abs()))
    }
    pub fn map(&self, f: impl Fn(D3) -> D3, dir: impl Fn(D3) -> D3) -> GBrush {
        GBrush {
            kind: self.kind.clone(),
            faces: self
                .faces
                .iter()
                .map(|g| {
                    let n = unit(dir(g.n));
                    let p0 = f(d3(g.pts[0]));
                    GFace {
                        pts: g.pts.map(|p| {
                            let q = f(d3(p));
                            [q[0] as f32, q[1] as f32, q[2] as f32]
                        }),
                        n,
                        d: dot(n, p0),
                        poly: g.poly.iter().map(|p| f(*p)).collect(),
                    }
                })
                .collect(),
        }
    }
    /// All triple products and near misses are far from the code's epsilons,
    /// and no feature is smaller than the documented domain.
    pub fn well_conditioned(&self) -> bool {
        let fs = &self.faces;
        let m = fs.len();
        let maxc = self.max_coord();
        let (edge, inner) = if self.kind == "box" { (0.007f64, 0.0035f64) } else { (0.0125, 0.004) };
        let min_edge = edge.max(2e-5 * maxc);
        let min_in = inner.max(8e-6 * maxc);
        for f in fs {
            let k = f.poly.len();
            if k == 0 {
                continue;
            }
            let c = mean(&f.poly);
            for i in 0..k {
                let (a, b) = (f.poly[i], f.poly[(i + 1) % k]);
                let e = sub(b, a);
                if len(e) < min_edge || len(cross(e, sub(c, a))) / len(e) < min_in {
                    return false;
                }
            }
        }
        let corners = self.corners();
        // planes that only touch an edge or corner are neither faces nor redundant
        for f in fs.iter().filter(|f| f.poly.is_empty()) {
            if corners.iter().any(|c| dot(f.n, *c) - f.d > -0.01) {
                return false;
            }
        }
        let mut ok = vec![false; m * corners.len()];
        for i in 0..m {
            for j in i + 1..m {
                let cij = cross(fs[i].n, fs[j].n);
                for k in j + 1..m {
                    let det = dot(cij, fs[k].n);
                    if det.abs() < 0.0005 {
                        continue;
                    }
                    let x = mul(
                        add(
                            add(
                                mul(cross(fs[j].n, fs[k].n), fs[i].d),
                                mul(cross(fs[k].n, fs[i].n), fs[j].d),
                            ),
                            mul(cij, fs[k].d),
                        ),
                        1.0 / det,
                    );
                    let viol = fs.iter().fold(f64::MIN, |a, f| a.max(dot(f.n, x) - f.d));
                    if viol > 0.004 {
                        continue;
                    }
                    match corners.iter().position(|c| dist(*c, x) < 1e-5) {
                        Some(c) => {
                            if det.abs() >= 0.002 {
                                for f in [i, j, k] {
                                    ok[f * corners.len() + c] = true;
                                }
                            }
                        }
                        None => return false,
                    }
                }
            }
        }
        for (fi, f) in fs.iter().enumerate() {
            for p in &f.poly {
                let c = corners.iter().position(|c| dist(*c, *p) < 1e-6).unwrap();
                if !ok[fi * corners.len() + c] {
                    return false;
                }
            }
        }
        true
    }
}

#[derive(Clone, Debug)]
pub enum Shape {
    Box { size: [i64; 3] },
    Pts { pts: Vec<[i64; 3]> },
    Prism { n: usize, r: i64, phase: u8, h: i64, axis: usize, shear: [i64; 2] },
    Frustum { n: usize, r: i64, m: i64, k: i64, h: i64, axis: usize, shift: [i64; 2] },
    Bevel { size: [i64; 3], corners: Vec<(u8, i64)>, edges: Vec<(u8, i64)> },
    Cut { size: i64, cuts: Vec<([i64; 3], i64)> },
    Wedge { len: i64, width: i64, height: i64, tip: i64 },
}

#[derive(Clone, Debug)]
pub struct Recipe {
    pub shape: Shape,
    /// unit is 2^-u
    pub u: u32,
    pub offset: [i64; 3],
    pub redundant: Vec<([i64; 3], i64)>,
    pub order: Vec<u16>,
    pub pick: Vec<[u8; 4]>,
}

fn ngon(n: usize, r: i64, phase: u8) -> Vec<[i64; 2]> {
    (0..n)
        .map(|i| {
            let a = (i as f64 + phase as f64 / 16.0) * std::f64::consts::TAU / n as f64;
            [(r as f64 * a.cos()).round() as i64, (r as f64 * a.sin()).round() as i64]
        })
        .collect()
}
fn lift(p: [i64; 2], z: i64, axis: usize) -> P {
    match axis % 3 {
        0 => [z, p[0], p[1]],
        1 => [p[1], z, p[0]],
        _ => [p[0], p[1], z],
    }
}

/// Integer points (and unit exponent) of a shape.
fn points(s: &Shape, u: u32) -> (Vec<P>, u32) {
    match s {
        Shape::Box { size } => {
            let mut v = vec![];
            for x in [0, size[0]] {
                for y in [0, size[1]] {
                    for z in [0, size[2]] {
                        v.push([x, y, z]);
                    }
                }
            }
            (v, u)
        }
        Shape::Pts { pts } => (pts.clone(), u),
        Shape::Prism { n, r, phase, h, axis, shear } => {
            let b = ngon(*n, *r, *phase);
            let mut v: Vec<P> = b.iter().map(|p| lift(*p, 0, *axis)).collect();
            v.extend(b.iter().map(|p| lift([p[0] + shear[0], p[1] + shear[1]], *h, *axis)));
            (v, u)
        }
        Shape::Frustum { n, r, m, k, h, axis, shift } => {
            let b = ngon(*n, *r, 3);
            let mut v: Vec<P> = b.iter().map(|p| lift([p[0] * m, p[1] * m], 0, *axis)).collect();
            v.extend(
                b.iter()
                    .map(|p| lift([p[0] * k + shift[0], p[1] * k + shift[1]], *h, *axis)),
            );
            (v, u)
        }
        Shape::Bevel { size, corners, edges } => {
            let s = [size[0] * 128, size[1] * 128, size[2] * 128];
            let mut v = vec![];
            for c in 0..8u8 {
                let bit = |i: usize| (c >> i) & 1 == 1;
                let base: P = [0, 1, 2].map(|i| if bit(i) { s[i] } else { 0 });
                let step = |i: usize, a: i64| {
                    let mut p = base;
                    p[i] += if bit(i) { -a } else { a };
                    p
                };
                if let Some((_, a)) = corners.iter().find(|(k, _)| k % 8 == c) {
                    v.extend([step(0, *a), step(1, *a), step(2, *a)]);
                    continue;
                }
                let edge = edges.iter().find(|(e, _)| {
                    let e = e % 12;
                    let axis = (e / 4) as usize;
                    let (i, j) = ((axis + 1) % 3, (axis + 2) % 3);
                    bit(i) == (e & 1 == 1) && bit(j) == (e & 2 == 2)
                });
                match edge {
                    Some((e, a)) => {
                        let axis = (e % 12 / 4) as usize;
                        v.extend([step((axis + 1) % 3, *a), step((axis + 2) % 3, *a)]);
                    }
                    None => v.push(base),
                }
            }
            (v, 7)
        }
        Shape::Wedge { len, width, height, tip } => {
            // a long sliver: nearly parallel top and bottom
            let v = vec![
                [0, 0, 0],
                [0, *width, 0],
                [*len, 0, 0],
                [*len, *width, 0],
                [0, 0, *height],
                [0, *width, *height],
                [*len, 0, *tip],
                [*len, *width, *tip],
            ];
            (v, u)
        }
        Shape::Cut { .. } => unreachable!(),
    }
}

fn orth(m: P) -> (P, P) {
    let b1: P = if m[0] == 0 && m[1] == 0 {
        [1, 0, 0]
    } else {
        [m[1], -m[0], 0]
    };
    (b1, hull::cross(m, b1))
}

fn face_points(a: P, b: P, c: P, pick: [u8; 4]) -> [P; 3] {
    // a, b, c counter-clockwise from outside; the map wants clockwise
    let e1 = hull::sub(c, a);
    let e2 = hull::sub(b, a);
    let (m1, m2, m3) = match pick[2] % 4 {
        0 | 1 => (1, 0, 1),
        2 => (1, 1, 2),
        _ => (2, -1, 1),
    };
    let comb = |k1: i64, k2: i64| [0, 1, 2].map(|i| a[i] + e1[i] * k1 + e2[i] * k2);
    let v = [a, comb(m1, m2), comb(0, m3)];
    let r = pick[3] as usize % 3;
    [v[r], v[(r + 1) % 3], v[(r + 2) % 3]]
}

fn to_f(p: P, unit: f64) -> [f32; 3] {
    p.map(|c| {
        let v = c as f64 * unit;
        debug_assert_eq!(v as f32 as f64, v);
        v as f32
    })
}
fn to_d(p: P, unit: f64) -> D3 {
    p.map(|c| c as f64 * unit)
}

fn clip(poly: &[D3], n: D3, d: f64) -> Vec<D3> {
    let mut out: Vec<D3> = vec![];
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        let (sa, sb) = (dot(n, a) - d, dot(n, b) - d);
        if sa <= 0.0 {
            out.push(a);
        }
        if (sa < 0.0 && sb > 0.0) || (sa > 0.0 && sb < 0.0) {
            let t = sa / (sa - sb);
            out.push(add(a, mul(sub(b, a), t)));
        }
    }
    out
}

fn build_cut(size: i64, cuts: &[([i64; 3], i64)], off: P, pick: &[[u8; 4]]) -> Option<GBrush> {
    let mut planes: Vec<(P, P)> = vec![]; // normal, point
    for i in 0..3 {
        for s in [-1i64, 1] {
            let mut n = [0; 3];
            n[i] = s;
            planes.push((n, [off[0] + n[0] * size, off[1] + n[1] * size, off[2] + n[2] * size]));
        }
    }
    for (n, k) in cuts {
        if *n == [0, 0, 0] {
            continue;
        }
        // through a lattice point at about k/16 of the way to the support corner
        let corner = n.map(|c| c.signum() * size);
        let p = [0, 1, 2].map(|i| off[i] + corner[i] * (4 + k % 12) / 16);
        // one plane given twice is outside the domain
        let same = |m: P, q: P| {
            hull::cross(*n, m) == [0, 0, 0] && hull::dot(*n, m) > 0 && hull::dot(*n, hull::sub(p, q)) == 0
        };
        if !planes.iter().any(|(m, q)| same(*m, *q)) {
            planes.push((*n, p));
        }
    }
    let mut faces: Vec<GFace> = vec![];
    for (i, (n, p)) in planes.iter().enumerate() {
        let nd = unit(to_d(*n, 1.0));
        let pd = to_d(*p, 1.0);
        let (b1, b2) = orth(*n);
        let (x, y) = (unit(to_d(b1, 1.0)), unit(cross(nd, unit(to_d(b1, 1.0)))));
        let big = 16.0 * size as f64;
        let mut poly: Vec<D3> = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]
            .iter()
            .map(|(s, t)| add(pd, add(mul(x, s * big), mul(y, t * big))))
            .collect();
        for (j, (m, q)) in planes.iter().enumerate() {
            if i != j {
                let md = unit(to_d(*m, 1.0));
                poly = clip(&poly, md, dot(md, to_d(*q, 1.0)));
            }
        }
        // drop coinciding corners (a plane through an existing corner)
        let mut clean: Vec<D3> = vec![];
        for p in poly {
            if clean.last().map_or(true, |q: &D3| dist(*q, p) > 1e-7) {
                clean.push(p);
            }
        }
        while clean.len() > 1 && dist(clean[0], *clean.last().unwrap()) <= 1e-7 {
            clean.pop();
        }
        if clean.len() < 3 {
            clean.clear();
        }
        let (b1, b2) = match pick.get(i % pick.len().max(1)) {
            Some(k) if k[2] % 2 == 1 => ([0, 1, 2].map(|t| b1[t] + b2[t]), b2),
            _ => (b1, b2),
        };
        // (v2-v0) x (v1-v0) must point along n; b2 = n x b1 so b1 x b2 is along n
        let pts = [*p, [0, 1, 2].map(|t| p[t] + b2[t]), [0, 1, 2].map(|t| p[t] + b1[t])];
        faces.push(GFace {
            pts: pts.map(|q| to_f(q, 1.0)),
            n: nd,
            d: dot(nd, pd),
            poly: clean,
        });
    }
    let b = GBrush { kind: "cut".into(), faces };
    if b.volume() < 1.0 {
        return None;
    }
    Some(b)
}

pub fn build(r: &Recipe) -> GBrush {
    match try_build(r) {
        Some(b) if b.well_conditioned() => b,
        _ => {
            let mut b = try_build(&Recipe {
                shape: Shape::Box { size: [16, 32, 8] },
                u: 0,
                redundant: vec![],
                ..r.clone()
            })
            .unwrap();
            b.kind = "fallback box".into();
            b
        }
    }
}

fn try_build(r: &Recipe) -> Option<GBrush> {
    let none = [[0u8; 4]];
    let pick: &[[u8; 4]] = if r.pick.is_empty() { &none } else { &r.pick };
    let mut b = match &r.shape {
        Shape::Cut { size, cuts } => build_cut(*size, cuts, r.offset, pick)?,
        s => {
            let (pts, u) = points(s, r.u);
            let unit_ = 1.0 / (1u64 << u) as f64;
            let h = hull::hull(&pts)?;
            let off = r.offset.map(|o| o << u);
            let mv = |p: P| [p[0] + off[0], p[1] + off[1], p[2] + off[2]];
            let mut faces: Vec<GFace> = h
                .facets
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    let k = pick[i % pick.len()];
                    let c = f.poly.len();
                    let s = k[0] as usize % c;
                    let (j, l) = match k[1] % 3 {
                        0 => (1, 2),
                        1 => (1, c - 1),
                        _ => ((c - 1) / 2, c - 1),
                    };
                    let (j, l) = if j == l { (1, 2) } else { (j, l) };
                    let at = |x: usize| mv(f.poly[(s + x) % c]);
                    let pts = face_points(at(0), at(j), at(l), k);
                    let n = unit(to_d(f.n, 1.0));
                    GFace {
                        pts: pts.map(|p| to_f(p, unit_)),
                        n,
                        d: dot(n, to_d(mv(f.poly[0]), unit_)),
                        poly: f.poly.iter().map(|p| to_d(mv(*p), unit_)).collect(),
                    }
                })
                .collect();
            let verts = h.vertices();
            for (i, (m, gap)) in r.redundant.iter().enumerate() {
                if *m == [0, 0, 0] {
                    continue;
                }
                let top = verts.iter().max_by_key(|v| hull::dot(*m, **v)).copied()?;
                let g = gap << u;
                let p = mv([top[0] + m[0] * g, top[1] + m[1] * g, top[2] + m[2] * g]);
                let (b1, b2) = orth(*m);
                let (b1, b2) = (b1.map(|c| c << u), b2.map(|c| c << u));
                let mut pts = [p, [0, 1, 2].map(|t| p[t] + b2[t]), [0, 1, 2].map(|t| p[t] + b1[t])];
                pts.rotate_left(pick[i % pick.len()][3] as usize % 3);
                let n = unit(to_d(*m, 1.0));
                faces.push(GFace {
                    pts: pts.map(|q| to_f(q, unit_)),
                    n,
                    d: dot(n, to_d(p, unit_)),
                    poly: vec![],
                });
            }
            let kind = match s {
                Shape::Box { .. } => "box",
                Shape::Pts { .. } => "points",
                Shape::Prism { .. } => "prism",
                Shape::Frustum { k, .. } => {
                    if *k == 0 {
                        "pyramid"
                    } else {
                        "frustum"
                    }
                }
                Shape::Bevel { .. } => "bevel",
                Shape::Wedge { .. } => "wedge",
                Shape::Cut { .. } => "cut",
            };
            GBrush { kind: kind.into(), faces }
        }
    };
    if !r.order.is_empty() {
        let mut keyed: Vec<(u16, GFace)> = b
            .faces
            .into_iter()
            .enumerate()
            .map(|(i, f)| (r.order[i % r.order.len()], f))
            .collect();
        keyed.sort_by_key(|k| k.0);
        b.faces = keyed.into_iter().map(|k| k.1).collect();
    }
    // sanity of the generator itself
    for f in &b.faces {
        let (v0, v1, v2) = (d3(f.pts[0]), d3(f.pts[1]), d3(f.pts[2]));
        let n = unit(cross(sub(v2, v0), sub(v1, v0)));
        assert!(dist(n, f.n) < 1e-6, "generator: plane points do not match the normal");
    }
    Some(b)
}

fn offset() -> BoxedStrategy<[i64; 3]> {
    prop_oneof![
        3 => prop::array::uniform3(-64i64..64),
        2 => prop::array::uniform3(100i64..700),
        1 => prop::array::uniform3(-4000i64..4000),
        1 => Just([0, 0, 0]),
    ]
    .boxed()
}

fn finish(shape: BoxedStrategy<Shape>, redundant: bool) -> BoxedStrategy<GBrush> {
    let red = if redundant {
        prop_oneof![
            4 => Just(vec![]),
            1 => prop::collection::vec((prop::array::uniform3(-3i64..4), 1i64..20), 1..4),
        ]
        .boxed()
    } else {
        Just(vec![]).boxed()
    };
    (
        shape,
        prop_oneof![3 => Just(0u32), 1 => Just(2u32), 1 => Just(4u32)],
        offset(),
        red,
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(any::<u16>(), 5..23)],
        prop::collection::vec(any::<[u8; 4]>(), 0..7),
    )
        .prop_map(|(shape, u, offset, redundant, order, pick)| {
            // some boxes are thin, down to a hundredth of a unit
            let u = if matches!(shape, Shape::Box { .. }) && u == 4 && pick.len() % 2 == 1 { 7 - pick.len() as u32 / 2 % 2 } else { u };
            build(&Recipe { shape, u, offset, redundant, order, pick })
        })
        .boxed()
}

fn sh_box() -> BoxedStrategy<Shape> {
    prop::array::uniform3(1i64..200).prop_map(|size| Shape::Box { size }).boxed()
}
fn sh_pts() -> BoxedStrategy<Shape> {
    prop_oneof![
        prop::collection::vec(prop::array::uniform3(-64i64..64), 4..9),
        prop::collection::vec(prop::array::uniform3(-6i64..7), 5..11),
        prop::collection::vec(prop::array::uniform3(-100i64..100), 8..14),
    ]
    .prop_map(|pts| Shape::Pts { pts })
    .boxed()
}
fn sh_prism() -> BoxedStrategy<Shape> {
    (
        prop_oneof![4 => 3usize..9, 1 => 9usize..21],
        8i64..200,
        0u8..16,
        1i64..100,
        0usize..3,
        prop_oneof![Just([0i64, 0]), prop::array::uniform2(-40i64..40)],
    )
        .prop_map(|(n, r, phase, h, axis, shear)| Shape::Prism { n, r, phase, h, axis, shear })
        .boxed()
}
fn sh_frustum() -> BoxedStrategy<Shape> {
    (
        3usize..9,
        3i64..40,
        2i64..5,
        0i64..4,
        4i64..100,
        0usize..3,
        prop::array::uniform2(-20i64..20),
    )
        .prop_map(|(n, r, m, k, h, axis, shift)| Shape::Frustum {
            n,
            r,
            m,
            k: k % m,
            h,
            axis,
            shift,
        })
        .boxed()
}
fn sh_bevel() -> BoxedStrategy<Shape> {
    let amount = || prop_oneof![2i64..17, 16i64..65];
    (
        prop::array::uniform3(2i64..64),
        prop::collection::vec((0u8..8, amount()), 0..4),
        prop::collection::vec((0u8..12, amount()), 0..4),
    )
        .prop_map(|(size, corners, edges)| Shape::Bevel { size, corners, edges })
        .boxed()
}
fn sh_cut() -> BoxedStrategy<Shape> {
    (
        8i64..200,
        prop::collection::vec((prop::array::uniform3(-5i64..6), 0i64..12), 1..7),
    )
        .prop_map(|(size, cuts)| Shape::Cut { size, cuts })
        .boxed()
}
fn sh_wedge() -> BoxedStrategy<Shape> {
    (16i64..400, 4i64..64, 2i64..40, 0i64..3)
        .prop_map(|(len, width, height, tip)| Shape::Wedge { len, width, height, tip })
        .boxed()
}

/// All kinds of brush.
pub fn brush() -> BoxedStrategy<GBrush> {
    finish(
        prop_oneof![
            2 => sh_box(),
            4 => sh_pts(),
            3 => sh_prism(),
            2 => sh_frustum(),
            3 => sh_bevel(),
            3 => sh_cut(),
            1 => sh_wedge(),
        ]
        .boxed(),
        true,
    )
}
/// Small ordinary brushes for checks that are not about geometry.
pub fn plain() -> BoxedStrategy<GBrush> {
    finish(
        prop_oneof![
            4 => sh_box(),
            2 => prop::collection::vec(prop::array::uniform3(-40i64..40), 4..7)
                .prop_map(|pts| Shape::Pts { pts }),
            1 => (3usize..6, 8i64..60, 1i64..40).prop_map(|(n, r, h)| Shape::Prism {
                n, r, phase: 1, h, axis: 2, shear: [0, 0]
            }),
            1 => sh_frustum(),
        ]
        .boxed(),
        false,
    )
}
pub fn boxes() -> BoxedStrategy<GBrush> {
    finish(sh_box(), false)
}
/// A box in units of 1/128.
pub fn thin_box(at: [i64; 3], size: [i64; 3]) -> GBrush {
    build(&Recipe { shape: Shape::Box { size }, u: 7, offset: at, redundant: vec![], order: vec![], pick: vec![] })
}
/// An axis-aligned box without randomness.
pub fn simple_box(at: [i64; 3], size: [i64; 3]) -> GBrush {
    build(&Recipe {
        shape: Shape::Box { size },
        u: 0,
        offset: at,
        redundant: vec![],
        order: vec![],
        pick: vec![],
    })
}
/// A prism with n sides.
pub fn simple_prism(n: usize, r: i64, h: i64, at: [i64; 3]) -> GBrush {
    build(&Recipe {
        shape: Shape::Prism { n, r, phase: 0, h, axis: 2, shear: [0, 0] },
        u: 0,
        offset: at,
        redundant: vec![],
        order: vec![],
        pick: vec![],
    })
}
pub fn from_points(pts: Vec<[i64; 3]>, at: [i64; 3]) -> GBrush {
    build(&Recipe { shape: Shape::Pts { pts }, u: 0, offset: at, redundant: vec![], order: vec![], pick: vec![] })
}
pub fn simple_pyramid(n: usize, r: i64, h: i64, at: [i64; 3]) -> GBrush {
    build(&Recipe {
        shape: Shape::Frustum { n, r, m: 2, k: 0, h, axis: 2, shift: [0, 0] },
        u: 0,
        offset: at,
        redundant: vec![],
        order: vec![],
        pick: vec![],
    })
}
