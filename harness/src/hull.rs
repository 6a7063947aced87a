//! Exact convex hulls of small integer point sets (reference geometry).
use serde::{Deserialize, Serialize};

pub type P = [i64; 3];

pub fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn cross(a: P, b: P) -> P {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn dot(a: P, b: P) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}

/// A facet of the hull: primitive outward integer normal and the corner
/// polygon in counter-clockwise order seen from outside.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Facet {
    pub n: P,
    pub d: i64,
    pub poly: Vec<P>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Hull {
    pub facets: Vec<Facet>,
}

/// Convex hull of `pts`; None if they do not span three dimensions.
pub fn hull(pts: &[P]) -> Option<Hull> {
    let mut pts: Vec<P> = pts.to_vec();
    pts.sort();
    pts.dedup();
    let m = pts.len();
    let mut planes: Vec<(P, i64)> = Vec::new();
    for i in 0..m {
        for j in i + 1..m {
            let ij = sub(pts[j], pts[i]);
            for k in j + 1..m {
                let mut n = cross(ij, sub(pts[k], pts[i]));
                if n == [0, 0, 0] {
                    continue;
                }
                let g = gcd(gcd(n[0], n[1]), n[2]);
                n = [n[0] / g, n[1] / g, n[2] / g];
                let d = dot(n, pts[i]);
                if planes
                    .iter()
                    .any(|(q, e)| (*q == n && *e == d) || (*q == [-n[0], -n[1], -n[2]] && *e == -d))
                {
                    continue;
                }
                let mut pos = false;
                let mut neg = false;
                for p in &pts {
                    let s = dot(n, *p) - d;
                    pos |= s > 0;
                    neg |= s < 0;
                    if pos && neg {
                        break;
                    }
                }
                match (pos, neg) {
                    (true, true) => {}
                    (false, false) => return None,
                    (false, true) => planes.push((n, d)),
                    (true, false) => planes.push(([-n[0], -n[1], -n[2]], -d)),
                }
            }
        }
    }
    if planes.len() < 4 {
        return None;
    }
    let facets = planes
        .into_iter()
        .map(|(n, d)| {
            let on: Vec<P> = pts.iter().copied().filter(|p| dot(n, *p) == d).collect();
            Facet { n, d, poly: polygon(&on, n) }
        })
        .collect();
    Some(Hull { facets })
}

/// Strictly convex polygon of coplanar points, counter-clockwise about n.
pub fn polygon(on: &[P], n: P) -> Vec<P> {
    let drop = (0..3).max_by_key(|i| n[*i].abs()).unwrap();
    let (a, b) = match drop {
        0 => (1, 2),
        1 => (2, 0),
        _ => (0, 1),
    };
    let flip = n[drop] < 0;
    let key = |p: &P| if flip { (p[b], p[a]) } else { (p[a], p[b]) };
    let mut s = on.to_vec();
    s.sort_by_key(key);
    let turn = |o: &P, p: &P, q: &P| {
        let (o, p, q) = (key(o), key(p), key(q));
        (p.0 - o.0) * (q.1 - o.1) - (p.1 - o.1) * (q.0 - o.0)
    };
    let half = |it: &mut dyn Iterator<Item = &P>| {
        let mut h: Vec<P> = Vec::new();
        for p in it {
            while h.len() >= 2 && turn(&h[h.len() - 2], &h[h.len() - 1], p) <= 0 {
                h.pop();
            }
            h.push(*p);
        }
        h.pop();
        h
    };
    let mut out = half(&mut s.iter());
    out.extend(half(&mut s.iter().rev()));
    out
}

impl Hull {
    pub fn vertices(&self) -> Vec<P> {
        let mut v: Vec<P> = self.facets.iter().flat_map(|f| f.poly.iter().copied()).collect();
        v.sort();
        v.dedup();
        v
    }
    /// number of facets meeting at p
    pub fn degree(&self, p: P) -> usize {
        self.facets.iter().filter(|f| dot(f.n, p) == f.d).count()
    }
    pub fn volume6(&self) -> i64 {
        let mut v = 0;
        for f in &self.facets {
            for i in 1..f.poly.len() - 1 {
                v += dot(f.poly[0], cross(f.poly[i], f.poly[i + 1]));
            }
        }
        v
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn cube() {
        let mut pts = vec![];
        for x in [0, 2] {
            for y in [0, 2] {
                for z in [0, 1, 2] {
                    pts.push([x, y, z]);
                }
            }
        }
        let h = hull(&pts).unwrap();
        assert_eq!(h.facets.len(), 6);
        assert_eq!(h.vertices().len(), 8);
        assert_eq!(h.volume6(), 48);
        for f in &h.facets {
            assert_eq!(f.poly.len(), 4);
            let c = cross(sub(f.poly[1], f.poly[0]), sub(f.poly[2], f.poly[0]));
            assert!(dot(c, f.n) > 0);
        }
    }
}
