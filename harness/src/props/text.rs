//! C06 respelling, C07 robustness, C08 acceptance.
use crate::geom;
use crate::mapdoc::*;
use crate::runner::{Check, Obs, Prop};
use crate::scene::*;
use crate::sut::{self, Cfg, Node, Surf};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Decisions taken from a list of numbers; shrinks towards "do nothing".
struct Tape<'a> {
    t: &'a [u16],
    i: usize,
}
impl<'a> Tape<'a> {
    fn new(t: &'a [u16]) -> Tape<'a> {
        Tape { t, i: 0 }
    }
    fn next(&mut self, n: usize) -> usize {
        if self.t.is_empty() {
            return 0;
        }
        let lap = self.i / self.t.len();
        let v = self.t[self.i % self.t.len()] as usize + lap * 7;
        self.i += 1;
        if self.t[(self.i - 1) % self.t.len()] == 0 {
            0
        } else {
            v % n
        }
    }
}
fn shuffle<T: Clone>(v: &mut [T], t: &mut Tape) {
    for i in (1..v.len()).rev() {
        let j = i - t.next(i + 1);
        v.swap(i, j);
    }
}

const COMMENTS: u16 = 1;
const BLANKS: u16 = 2;
const JUNK: u16 = 4;
const CRLF: u16 = 8;
const NO_END: u16 = 16;
const PROP_ORDER: u16 = 32;
const PROP_PLACE: u16 = 64;
const SPACES: u16 = 128;
const NUMBERS: u16 = 256;
const CASE: u16 = 512;
const TRAIL: u16 = 1024;
const FEATURES: [(u16, &str); 11] = [
    (COMMENTS, "comment lines"),
    (BLANKS, "blank lines"),
    (JUNK, "unrecognised lines"),
    (CRLF, "CRLF"),
    (NO_END, "no final newline"),
    (PROP_ORDER, "property order"),
    (PROP_PLACE, "properties between or after brushes"),
    (SPACES, "white space in face lines"),
    (NUMBERS, "number spelling"),
    (CASE, "texture case"),
    (TRAIL, "text behind braces and properties"),
];

fn spell_float(s: &str, t: &mut Tape) -> String {
    let v: f32 = s.parse().unwrap();
    let neg = s.starts_with('-');
    let body = s.trim_start_matches('-');
    let sign = if neg { "-" } else { "" };
    let out = match t.next(9) {
        1 if !neg => format!("+{s}"),
        2 if !s.contains('.') => format!("{s}.0"),
        3 if s.contains('.') => format!("{s}00"),
        4 => format!("{sign}0{body}"),
        5 => format!("{v:e}"),
        6 => format!("{v:E}"),
        7 if !s.contains('.') => format!("{s}."),
        8 if body.starts_with("0.") => format!("{sign}{}", &body[1..]),
        _ => s.to_string(),
    };
    assert_eq!(out.parse::<f32>().unwrap().to_bits(), v.to_bits());
    out
}
fn spell_int(s: &str, t: &mut Tape) -> String {
    let neg = s.starts_with('-');
    match t.next(4) {
        1 if !neg => format!("+{s}"),
        2 => format!("{}00{}", if neg { "-" } else { "" }, s.trim_start_matches('-')),
        _ => s.to_string(),
    }
}
/// Letter case; only for letters with one upper and one lower form.
fn spell_case(s: &str, t: &mut Tape) -> String {
    // not where the upper case of a letter is another word, as ß's SS
    let up = |c: char| {
        let u: String = c.to_uppercase().collect();
        if u.to_lowercase() == c.to_lowercase().to_string() {
            u
        } else {
            c.to_string()
        }
    };
    match t.next(4) {
        1 => s.chars().map(up).collect(),
        2 => s.to_lowercase(),
        3 => s
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { up(c) } else { c.to_string() })
            .collect(),
        _ => s.to_string(),
    }
}
fn spell_face(line: &str, mask: u16, t: &mut Tape) -> String {
    let mut toks: Vec<String> = line.split(' ').map(|s| s.to_string()).collect();
    // ( x y z ) three times, texture, then numbers and brackets
    let n = toks.len();
    let valve = toks[16] == "[";
    let tail = if valve { 16 + 12 + 3 } else { 16 + 2 + 3 };
    let extras = n - tail;
    for (i, tok) in toks.iter_mut().enumerate() {
        if i == 15 {
            if mask & CASE != 0 {
                *tok = spell_case(tok, t);
            }
        } else if mask & NUMBERS != 0 && !["(", ")", "[", "]"].contains(&tok.as_str()) {
            *tok = if extras >= 3 && (i == tail || i == tail + 1) {
                spell_int(tok, t)
            } else {
                spell_float(tok, t)
            };
        }
    }
    let mut out = String::new();
    for (i, tok) in toks.iter().enumerate() {
        if i > 0 {
            out.push_str(if mask & SPACES == 0 { " " } else { [" ", "  ", "\t", " \t "][t.next(4)] });
        }
        out.push_str(tok);
    }
    if mask & SPACES != 0 {
        out.push_str(["", " ", "\t", "   "][t.next(4)]);
    }
    out
}
fn fillers(out: &mut Vec<String>, mask: u16, t: &mut Tape) {
    if mask & COMMENTS != 0 {
        let c = ["", "// comment", "//", "// {", "// \"classname\" \"x\"", "/ ( 1 2 3 )", "//}"];
        match t.next(c.len() + 1) {
            0 => {}
            7 => out.push(format!("//{}{}", ["", "a", "ab", "abc"][t.next(4)], ["é", "日本", "🧱", "{ "][t.next(4)].repeat(t.next(400)))),
            i => out.push(c[i].into()),
        }
    }
    if mask & BLANKS != 0 {
        let c = [None, Some(""), Some(" "), Some("\t"), Some("    \t ")];
        if let Some(s) = c[t.next(c.len())] {
            out.push(s.into());
        }
    }
    if mask & JUNK != 0 {
        let c = ["", "junk", "x { }", "#", "patchDef2", "0", "ünïcode \"a\" \"b\"", "; }", "-"];
        match t.next(c.len() + 1) {
            0 => {}
            9 => out.push(["é", "日本", "🧱x", "j { \" "][t.next(4)].repeat(1 + t.next(400))),
            i => out.push(c[i].into()),
        }
    }
}
/// A brace's line, with white space or a comment behind the brace.
fn spell_brace(brace: char, mask: u16, t: &mut Tape) -> String {
    let tails = ["", " ", "\t", " // brush 7", "// }", "  \t ", " // \"classname\" \"x\"", " // ( 1 2 3 )"];
    format!("{brace}{}", if mask & TRAIL != 0 { tails[t.next(tails.len())] } else { "" })
}
fn spell_prop(k: &str, v: &str, mask: u16, t: &mut Tape) -> String {
    if mask & TRAIL == 0 {
        return format!("\"{k}\" \"{v}\"");
    }
    let gap = [" ", "", "  ", "\t", " \t "][t.next(5)];
    let tail = ["", " ", "\t", " // note", "  // {"][t.next(5)];
    format!("\"{k}\"{gap}\"{v}\"{tail}")
}
fn respell(ents: &[Ent], mask: u16, tape: &[u16]) -> String {
    let mut t = Tape::new(tape);
    let mut lines: Vec<String> = vec![];
    for e in ents {
        fillers(&mut lines, mask, &mut t);
        lines.push(spell_brace('{', mask, &mut t));
        let mut props: Vec<String> = e.props.iter().map(|(k, v)| spell_prop(k, v, mask, &mut t)).collect();
        let mut keys: Vec<&String> = e.props.iter().map(|p| &p.0).collect();
        keys.sort();
        let unique = keys.windows(2).all(|w| w[0] != w[1]);
        if mask & PROP_ORDER != 0 && unique {
            shuffle(&mut props, &mut t);
        }
        // where each property goes: before brush number `place`
        let mut place: Vec<usize> = props
            .iter()
            .map(|_| if mask & PROP_PLACE != 0 { t.next(e.brushes.len() + 1) } else { 0 })
            .collect();
        if !unique {
            place.sort();
        }
        for (i, b) in e.brushes.iter().enumerate() {
            for (p, at) in props.iter().zip(&place) {
                if *at == i {
                    fillers(&mut lines, mask, &mut t);
                    lines.push(p.clone());
                }
            }
            fillers(&mut lines, mask, &mut t);
            lines.push(spell_brace('{', mask, &mut t));
            for (g, f) in b.geo.faces.iter().zip(&b.faces) {
                fillers(&mut lines, mask, &mut t);
                lines.push(spell_face(&face_text(&g.pts, f), mask, &mut t));
            }
            fillers(&mut lines, mask, &mut t);
            lines.push(spell_brace('}', mask, &mut t));
        }
        for (p, at) in props.iter().zip(&place) {
            if *at >= e.brushes.len() {
                fillers(&mut lines, mask, &mut t);
                lines.push(p.clone());
            }
        }
        fillers(&mut lines, mask, &mut t);
        lines.push(spell_brace('}', mask, &mut t));
    }
    fillers(&mut lines, mask, &mut t);
    let mut out = String::new();
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        out.push_str(l);
        if i + 1 == n && mask & NO_END != 0 {
            break;
        }
        out.push_str(if mask & CRLF != 0 && t.next(5) != 1 { "\r\n" } else { "\n" });
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Respell {
    Text { scene: Scene, mask: u16, tape: Vec<u16> },
    Faces { doc: Vec<Ent>, tape: Vec<u16> },
}

/// One face's output, with the faces in another order.
fn same_face(a: &Surf, b: &Surf, brush: &Brush, idx: usize) -> Check {
    let scale = &brush.faces[idx].scale;
    let gentle = scale.iter().all(|s| s.abs() >= 0.2);
    let close = |x: &[f32], y: &[f32], tol: f64| x.iter().zip(y).all(|(p, q)| ((p - q).abs() as f64) <= tol || p == q);
    let once = crate::props::geo::once(brush, idx);
    if once && a.verts.len() != b.verts.len() {
        return Err(format!("{} vertices became {}", a.verts.len(), b.verts.len()));
    }
    for (x, y) in [(a, b), (b, a)] {
        for i in 0..x.verts.len() {
            let p = geom::d3(x.verts[i]);
            let tol = geom::tol_at(p);
            let ok = (0..y.verts.len()).any(|j| {
                close(&x.verts[i], &y.verts[j], tol)
                    && close(&x.normals[i], &y.normals[j], 1e-5)
                    && close(&x.tangents[i].0, &y.tangents[j].0, 1e-5)
                    && x.tangents[i].1 == y.tangents[j].1
                    && match (&x.uvs, &y.uvs) {
                        (Some(u), Some(v)) => {
                            !gentle || close(&u[i], &v[j], 50.0 * tol + 1e-4 * (u[i][0].abs() + u[i][1].abs()) as f64)
                        }
                        (None, None) => true,
                        _ => false,
                    }
                    && match (&x.colors, &y.colors) {
                        (Some(u), Some(v)) => u[i] == v[j],
                        (None, None) => true,
                        _ => false,
                    }
            });
            if !ok {
                return Err(format!("vertex {:?} (normal {:?}, tangent {:?}, uv {:?}) has no counterpart in {:?}", x.verts[i], x.normals[i], x.tangents[i], x.uvs.as_ref().map(|u| u[i]), y));
            }
        }
    }
    Ok(())
}
fn near(a: sut::V3, b: sut::V3, ext: f64) -> bool {
    close(geom::d3(a), geom::d3(b), ext)
}
fn diff_text(a: &[Node], b: &[Node]) -> String {
    let (a, b) = (format!("{a:#?}"), format!("{b:#?}"));
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{:?} became {:?}", x.trim(), y.trim());
        }
    }
    "the trees differ in length".into()
}

pub struct C06;
impl Prop for C06 {
    type Case = Respell;
    const ID: &'static str = "C06";
    const CASES: (u64, u64) = (60_000, 900_000);
    const RULE: &'static str = "scenes (all brush kinds, groups, typed properties) written plainly and with any mixture of the meaningless respellings (comments, blank and unrecognised lines, CRLF, no final newline, property order and place, white space, number spellings, texture case, text behind braces and property lines): trees must be equal; and maps with permuted face order: per face the same polygon, attributes and a complete triangulation, same collision points and centres; non-trivial: the text differs";
    fn strategy(_: bool) -> BoxedStrategy<Respell> {
        let tape = || prop::collection::vec(any::<u16>(), 1..40);
        prop_oneof![
            3 => (scene(geom::brush, 6, 3), prop_oneof![1 => (0u32..11).prop_map(|b| 1u16 << b), 2 => 0u16..2048], tape())
                .prop_map(|(scene, mask, tape)| Respell::Text { scene, mask, tape }),
            1 => (geo_doc(geom::brush, 3), tape()).prop_map(|(mut doc, tape)| {
                for e in &mut doc {
                    e.props.retain(|p| p.0 != "_phong");
                }
                Respell::Faces { doc, tape }
            }),
        ]
        .boxed()
    }
    fn check(c: &Respell, obs: &mut Obs) -> Check {
        match c {
            Respell::Text { scene, mask, tape } => {
                let plain = scene.text();
                let other = respell(&scene.ents, *mask, tape);
                obs.nontrivial(plain != other);
                if plain != other {
                    for (b, n) in FEATURES {
                        obs.label_if(mask & b != 0, n);
                    }
                }
                // (several definitions of one texture would make nothing clearer)
                let a = sut::run_ok(&plain, &scene.cfg)?;
                let b = sut::run_ok(&other, &scene.cfg).map_err(|m| format!("respelled: {m}"))?;
                if a != b {
                    return Err(format!("respelling (features {mask:#x}) changed the result: {}", diff_text(&a, &b)));
                }
            }
            Respell::Faces { doc, tape } => {
                let mut t = Tape::new(tape);
                let mut other = doc.clone();
                for e in &mut other {
                    for b in &mut e.brushes {
                        let mut order: Vec<usize> = (0..b.faces.len()).collect();
                        shuffle(&mut order, &mut t);
                        b.faces = order.iter().map(|i| b.faces[*i].clone()).collect();
                        b.geo.faces = order.iter().map(|i| b.geo.faces[*i].clone()).collect();
                    }
                }
                obs.nontrivial(&other != doc);
                obs.label_if(&other != doc, "face order");
                let mut cfg = basic_cfg(1);
                add_textures(&mut cfg, doc);
                let a = sut::run_ok(&text(doc), &cfg)?;
                let b = sut::run_ok(&text(&other), &cfg)?;
                let (na, nb) = (flat_actors(&a, doc)?, flat_actors(&b, &other)?);
                for (i, (x, y)) in na.iter().zip(&nb).enumerate() {
                    let ext = extent(&doc[i]);
                    if !near(x.origin, y.origin, ext) {
                        return Err(format!("entity {i} moved from {:?} to {:?} with the face order", x.origin, y.origin));
                    }
                    match (collision(x), collision(y)) {
                        (Some(sut::Coll::Convex(p)), Some(sut::Coll::Convex(q))) if p.len() == q.len() => {
                            for (k, (s, t)) in p.iter().zip(q).enumerate() {
                                let all = |a: &[sut::V3], b: &[sut::V3]| {
                                    a.iter().all(|v| b.iter().any(|w| geom::dist(geom::d3(*v), geom::d3(*w)) <= geom::tol_at(geom::d3(*v))))
                                };
                                if !near(s.0, t.0, ext) || !all(&s.1, &t.1) || !all(&t.1, &s.1) {
                                    return Err(format!("collision of brush {k} of entity {i} changed with the face order: {s:?}, {t:?}"));
                                }
                            }
                        }
                        (None, None) => {}
                        (p, q) => return Err(format!("collision of entity {i} changed with the face order: {p:?}, {q:?}")),
                    }
                }
                let va = face_views(&a, doc)?;
                let vb = face_views(&b, &other)?;
                for x in &va {
                    let y = vb.iter().find(|y| y.ent == x.ent && y.face().tex == x.face().tex).unwrap();
                    match (x.surf, y.surf) {
                        (None, None) => {}
                        (Some(s), Some(t)) => {
                            tri_ok(s, t, x)?;
                        }
                        _ => return Err(format!("{} is in only one of the trees", x.name())),
                    }
                }
                fn tri_ok(s: &Surf, t: &Surf, x: &FaceView) -> Check {
                    same_face(s, t, x.brush, x.idx).map_err(|m| format!("{} with another face order: {m}", x.name()))?;
                    crate::props::geo::check_triangles(&t.verts, &t.indices, &x.geo().poly, x.geo().n)
                        .map_err(|m| format!("{} with another face order: {m}", x.name()))
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wild {
    /// Latin-1 view of the file's bytes
    bytes: Vec<u8>,
    cfg: Cfg,
    how: String,
}
#[derive(Clone, Debug)]
enum Mut {
    Dup(u16, u16),
    Swap(u16, u16),
    Delete(u16),
    Cut(u16, u16),
    Insert(u16, u16),
    Token(u16, u16, u16),
    DelToken(u16, u16),
    Byte(u16, u8, u8),
    End(u16),
    Vector(u16, u16),
    Copy(u16, u16),
    Num(u16, u16, u16),
    Prop(u16, u16),
    Long(u16, u16, u8),
}
const NUMS: [&str; 22] = [
    "nan", "inf", "-inf", "1e38", "-3.4e38", "1e-45", "-0", "0", "-1", "1e30", "99999999", "65536", "1e-20", "16777217", "1e20",
    "0.0001", "1", "2", "3.0000001", "180", "1e19", "-1e-38",
];
const PROPS: [&str; 26] = [
    "\"_tb_group\" \"1\"", "\"_tb_id\" \"1\"", "\"_tb_group\" \"x\"", "\"_tb_id\" \"x\"", "\"_phong\" \"1\"",
    "\"_phong\" \"2\"", "\"_phong_angle\" \"nan\"", "\"_phong_angle\" \"-1\"", "\"_phong_angle\" \"1e39\"",
    "\"_phong_angle\" \"inf\"", "\"_phong_angle\" \"\"", "\"_phong_angle\" \"9999\"", "\"origin\" \"nan inf 1e39\"",
    "\"origin\" \"1\"", "\"origin\" \"\"", "\"origin\" \"  1   2 3 4\"", "\"\" \"\"", "\"health\" \"99999999999\"",
    "\"color\" \"1 2\"", "\"color\" \"\"", "\"spawnflags\" \"-1\"", "\"angle\" \"é\"", "\"speed\" \"1e400\"",
    "\"_light\" \"nan nan nan\"", "\"message\" \"\"", "\"_tb_type\" \"\"",
];
const LINES: [&str; 44] = [
    "{", "}", "\"_tb_group\" \"1\"", "\"_tb_id\" \"1\"", "\"_tb_group\" \"2\"", "\"_tb_id\" \"2\"", "\"_phong\" \"1\"",
    "\"_phong_angle\" \"nan\"", "\"_phong_angle\" \"-1\"", "\"_phong_angle\" \"1e39\"", "\"_phong_angle\" \"\"",
    "\"origin\" \"nan inf 1e39\"", "\"origin\" \"1\"", "\"origin\" \"\"", "\"origin\" \"  1   2 3 4\"",
    "\"classname\" \"worldspawn\"", "\"classname\" \"func_detail\"", "\"classname\" \"\"", "\"classname\"", "\"a", "\"", "\"\"",
    "\"\"\"", "\"\"\"\"", "\"\" \"\"", "\"a\" \"b\" \"c\"", "\"health\" \"99999999999\"", "\"color\" \"1 2\"", "\"color\" \"\"",
    "\"spawnflags\" \"-1\"", "(", "()", "( 0 0 0 )", "( 0 0 0 ) ( 0 0 0 ) ( 0 0 0 ) a 0 0 0 1 1",
    "( 0 0 0 ) ( 1 0 0 ) ( 2 0 0 ) a 0 0 0 1 1", "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) *water0 0 0 0 0 0",
    "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) *slime0 0 0 0 0 0 1", "( 3e38 0 0 ) ( 0 3e38 0 ) ( -3e38 0 3e38 ) a 0 0 0 1 1",
    "( nan 0 0 ) ( 0 1 0 ) ( 1 0 0 ) a 0 0 0 1 1", "( 0 0 0 ) ( 1 1 0 ) ( 1 0 0 ) a [ 0 0 0 0 ] [ 0 0 0 0 ] 0 1 1",
    "( 0 0 0 ) ( 1 1 0 ) ( 1 0 0 ) a [", "( 0 0 0 ) ( 1 1 0 ) ( 1 0 0 ) a x 0 0 0 1 1 2 3 4 5 6 7 8", "//", "\u{feff}{",
];
const TOKENS: [&str; 34] = [
    "nan", "inf", "-inf", "NaN", "1e38", "-3.4e38", "1e39", "1e-45", "-0", "0", "", "[", "]", "(", ")", "x", "99999999999",
    "-2147483648", "2147483648", "1e999", "0x10", "é", "\u{0}", "\"", "{", "}", "1e-20", "16777217", "*water0", "*slime0", "1e20",
    "0.0001", "İ", "\u{a0}",
];
const VECTORS: [&str; 10] = [
    "0 0 0", "nan nan nan", "inf 0 0", "-inf inf 1", "1e38 1e38 1e38", "1e-40 0 1e-40", "3.4e38 -3.4e38 3.4e38", "1 1 1", "1e19 1e19 1e19", "65536 65536 65537",
];
fn apply(text: &str, muts: &[Mut]) -> Vec<u8> {
    let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    let mut bytes: Option<Vec<u8>> = None;
    for m in muts {
        if lines.is_empty() {
            lines.push(String::new());
        }
        let n = lines.len();
        let at = |i: &u16| *i as usize % n;
        match m {
            Mut::Dup(a, b) => {
                let l = lines[at(a)].clone();
                lines.insert(at(b), l);
            }
            Mut::Copy(a, b) => {
                // a run of lines again at the end
                let (a, b) = (at(a), at(b));
                let v = lines[a.min(b)..=a.max(b)].to_vec();
                lines.extend(v.into_iter().take(60));
            }
            Mut::Swap(a, b) => lines.swap(at(a), at(b)),
            Mut::Delete(a) => {
                lines.remove(at(a));
            }
            Mut::Cut(a, k) => {
                let l = &mut lines[*a as usize % n];
                let mut k = *k as usize % (l.len() + 1);
                while !l.is_char_boundary(k) {
                    k -= 1;
                }
                l.truncate(k);
            }
            Mut::Insert(a, d) => lines.insert(at(a), LINES[*d as usize % LINES.len()].to_string()),
            Mut::Token(a, k, d) => {
                // prefer face lines
                let face: Vec<usize> = (0..n).filter(|i| lines[*i].starts_with('(')).collect();
                let i = if face.is_empty() || a % 5 == 0 { at(a) } else { face[*a as usize % face.len()] };
                let mut t: Vec<&str> = lines[i].split(' ').collect();
                let k = *k as usize % t.len();
                t[k] = TOKENS[*d as usize % TOKENS.len()];
                lines[i] = t.join(" ");
            }
            Mut::Vector(a, d) => {
                let face: Vec<usize> = (0..n).filter(|i| lines[*i].starts_with('(')).collect();
                if face.is_empty() {
                    continue;
                }
                let i = face[*a as usize % face.len()];
                let t: Vec<String> = lines[i].split(' ').map(|s| s.to_string()).collect();
                if t.len() < 16 {
                    continue;
                }
                let w = *d as usize / VECTORS.len() % 3;
                let mut t = t;
                for (j, c) in VECTORS[*d as usize % VECTORS.len()].split(' ').enumerate() {
                    t[5 * w + 1 + j] = c.to_string();
                }
                lines[i] = t.join(" ");
            }
            Mut::Num(a, k, d) => {
                let face: Vec<usize> = (0..n).filter(|i| lines[*i].starts_with('(')).collect();
                if face.is_empty() {
                    continue;
                }
                let i = face[*a as usize % face.len()];
                let mut t: Vec<&str> = lines[i].split(' ').collect();
                let num: Vec<usize> = (0..t.len()).filter(|j| *j != 15 && is_number(t[*j])).collect();
                if num.is_empty() {
                    continue;
                }
                t[num[*k as usize % num.len()]] = NUMS[*d as usize % NUMS.len()];
                lines[i] = t.join(" ");
            }
            Mut::Prop(a, d) => {
                let c: Vec<usize> = (0..n).filter(|i| lines[*i].starts_with("\"classname\"")).collect();
                if !c.is_empty() {
                    lines.insert(c[*a as usize % c.len()] + 1, PROPS[*d as usize % PROPS.len()].to_string());
                }
            }
            Mut::DelToken(a, k) => {
                let i = at(a);
                let mut t: Vec<&str> = lines[i].split(' ').collect();
                let k = *k as usize % t.len();
                t.remove(k);
                lines[i] = t.join(" ");
            }
            Mut::Long(a, len, k) => {
                // a long name in place of one that is there
                let name: String = long_name(*len, *k);
                if k % 4 == 3 {
                    // or a line of its own
                    lines.insert(at(a), match len % 4 {
                        0 => name,
                        1 => format!("\"{name}\" \"{name}\""),
                        _ => format!("//{name}"),
                    });
                    continue;
                }
                let i = match k % 4 {
                    0 => at(a),
                    _ => {
                        let v: Vec<usize> = (0..n).filter(|i| lines[*i].starts_with(if k % 4 == 1 { '(' } else { '"' })).collect();
                        if v.is_empty() {
                            continue;
                        }
                        v[*a as usize % v.len()]
                    }
                };
                let l = lines[i].clone();
                if l.starts_with('(') {
                    let mut t: Vec<&str> = l.split(' ').collect();
                    if t.len() > 15 {
                        t[15] = &name;
                    }
                    lines[i] = t.join(" ");
                } else if l.starts_with('"') {
                    let mut t: Vec<&str> = l.split('"').collect();
                    let at = if k / 4 % 2 == 0 { 3 } else { 1 };
                    if at < t.len() {
                        t[at] = &name;
                    }
                    lines[i] = t.join("\"");
                } else {
                    lines[i] = name;
                }
            }
            Mut::Byte(..) | Mut::End(_) => {}
        }
    }
    for m in muts {
        let b = bytes.get_or_insert_with(|| (lines.join("\n") + "\n").into_bytes());
        if b.is_empty() {
            break;
        }
        let n = b.len();
        match m {
            Mut::Byte(at, v, how) => {
                let i = *at as usize * 7919 % n;
                match how % 4 {
                    0 => b[i] = *v,
                    1 => b[i] = b"{}\"()[] -.0e1/\n"[*v as usize % 15],
                    2 => b.insert(i, *v),
                    _ => {
                        b.remove(i);
                    }
                }
            }
            Mut::End(at) => b.truncate(*at as usize * 7919 % n),
            _ => {}
        }
    }
    bytes.unwrap_or_else(|| (lines.join("\n") + "\n").into_bytes())
}
/// Up to a few hundred bytes, in characters of one to four of them.
fn long_name(n: u16, k: u8) -> String {
    let fill = ["a", "é", "日", "x_", "🧱", "Aß"][k as usize / 8 % 6];
    let lead = n as usize % 300;
    let tail = ["é", "日本", "🧱🧱", "ß", "", "\u{301}"][n as usize / 300 % 6];
    let mut s = fill.repeat(lead / fill.len() + 1);
    for _ in 0..=n % 5 {
        s += tail;
    }
    if n % 2 == 1 {
        s.insert(0, 'b');
    }
    s
}
fn wild_cfg(cfg: &mut Cfg, k: u8) {
    cfg.layers = vec![crate::sut::LayerDef {
        name: "w".into(),
        texture: "*water0".into(),
        etype: sut::EType::Placeholder,
        script: None,
        mesh: k % 2 == 0,
        coll: k / 2 % 3,
    }];
    if k % 3 == 0 {
        cfg.black_plane = vec!["t0".into(), "a".into()];
        cfg.black_brush = vec!["a".into()];
    }
    cfg.textures.push(("*water0".into(), 64, 64));
    cfg.textures.push(("*slime0".into(), 0, 0));
    cfg.textures.push(("a".into(), k as u32 % 3, 16));
    for c in ["worldspawn", "func_detail"] {
        if !cfg.classes.iter().any(|d| d.name == c) {
            cfg.classes.push(class(c, Some((true, 1 + k % 2))));
        }
    }
}
fn mut_s() -> BoxedStrategy<Mut> {
    let i = any::<u16>;
    prop_oneof![
        1 => (i(), i()).prop_map(|(a, b)| Mut::Dup(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Mut::Swap(a, b)),
        1 => i().prop_map(Mut::Delete),
        1 => (i(), i()).prop_map(|(a, b)| Mut::Cut(a, b)),
        3 => (i(), i()).prop_map(|(a, b)| Mut::Insert(a, b)),
        4 => (i(), i(), i()).prop_map(|(a, b, c)| Mut::Token(a, b, c)),
        3 => (i(), i()).prop_map(|(a, b)| Mut::Vector(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Mut::DelToken(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Mut::Copy(a, b)),
        2 => (i(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Mut::Byte(a, b, c)),
        1 => i().prop_map(Mut::End),
        1 => (i(), i(), any::<u8>()).prop_map(|(a, b, c)| Mut::Long(a, b, c)),
    ]
    .boxed()
}
/// Mutations that leave the map's structure alone.
fn inner_mut_s() -> BoxedStrategy<Mut> {
    let i = any::<u16>;
    prop_oneof![
        3 => (i(), i(), i()).prop_map(|(a, b, c)| Mut::Num(a, b, c)),
        3 => (i(), i()).prop_map(|(a, b)| Mut::Vector(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| Mut::Prop(a, b)),
        1 => (i(), i(), any::<u8>()).prop_map(|(a, b, c)| Mut::Long(a, b, c)),
    ]
    .boxed()
}
/// Entities that claim to be in each other.
fn tangle_s() -> BoxedStrategy<String> {
    prop::collection::vec((0u8..5, 0u8..5, any::<bool>(), any::<bool>()), 0..12)
        .prop_map(|v| {
            let mut s = String::new();
            for (i, (id, group, has_id, has_group)) in v.iter().enumerate() {
                s += "{\n";
                s += &format!("\"classname\" \"{}\"\n", if i == 0 { "worldspawn" } else { "func_detail" });
                if *has_id {
                    s += &format!("\"_tb_id\" \"{id}\"\n");
                }
                if *has_group {
                    s += &format!("\"_tb_group\" \"{group}\"\n");
                }
                s += "}\n";
            }
            s
        })
        .boxed()
}
fn soup_s() -> BoxedStrategy<String> {
    prop::collection::vec(prop_oneof![3 => 0usize..LINES.len(), 1 => Just(0), 1 => Just(1), 1 => Just(15)], 0..40)
        .prop_map(|v| v.into_iter().map(|i| LINES[i].to_string() + "\n").collect())
        .boxed()
}
/// A chain of n groups written out as a map.
pub fn chain_text(n: usize, reverse: bool) -> String {
    let mut e: Vec<String> = (0..n)
        .map(|i| {
            format!(
                "{{\n\"classname\" \"g\"\n\"_tb_id\" \"{}\"\n{}}}\n",
                i + 2,
                if i > 0 { format!("\"_tb_group\" \"{}\"\n", i + 1) } else { String::new() }
            )
        })
        .collect();
    if reverse {
        e.reverse();
    }
    "{\n\"classname\" \"worldspawn\"\n}\n".to_string() + &e.concat()
}

pub struct C07;
impl Prop for C07 {
    type Case = Wild;
    const ID: &'static str = "C07";
    const CASES: (u64, u64) = (160_000, 2_400_000);
    const RULE: &'static str = "maps with 1-6 mutations (lines and tokens duplicated, moved, deleted, cut or replaced from a dictionary of non-finite and huge numbers, degenerate planes, odd properties; bytes changed; file cut), sequences of dictionary lines, random texts and bytes, tangled group references, and group chains of 3000 and 20000; with meshes, collision, layers and blacklists on; non-trivial: not accepted as the unmutated map, and at least one face line or two entities";
    const ASSUME: &'static [&'static str] = &["the harness builds the crate with overflow checks and debug assertions, 3 GB of memory and 8 MB of stack"];
    fn strategy(_: bool) -> BoxedStrategy<Wild> {
        let muts = || prop::collection::vec(mut_s(), 1..7);
        prop_oneof![
            6 => (scene(geom::brush, 5, 3), muts(), any::<u8>()).prop_map(|(mut s, m, k)| {
                wild_cfg(&mut s.cfg, k);
                Wild { bytes: apply(&s.text(), &m), cfg: s.cfg, how: "mutated scene".into() }
            }),
            6 => (scene(geom::brush, 4, 3), prop::collection::vec(inner_mut_s(), 1..8), any::<u8>()).prop_map(|(mut s, m, k)| {
                wild_cfg(&mut s.cfg, k);
                Wild { bytes: apply(&s.text(), &m), cfg: s.cfg, how: "scene with odd numbers".into() }
            }),
            1 => (prop::collection::vec(prop::collection::vec(32usize..40, 0..9), 0..4), prop::collection::vec(inner_mut_s(), 0..12), any::<u8>()).prop_map(|(b, m, k)| {
                let mut cfg = Cfg::default();
                wild_cfg(&mut cfg, k);
                let mut s = String::from("{\n\"classname\" \"worldspawn\"\n");
                for f in b {
                    s += "{\n";
                    for l in f {
                        s += &LINES[l.max(33)];
                        s += "\n";
                    }
                    s += "}\n";
                }
                s += "}\n";
                Wild { bytes: apply(&s, &m), cfg, how: "dictionary brushes".into() }
            }),
            1 => (soup_s(), muts(), any::<u8>()).prop_map(|(s, m, k)| {
                let mut cfg = Cfg::default();
                wild_cfg(&mut cfg, k);
                Wild { bytes: apply(&s, &m), cfg, how: "dictionary lines".into() }
            }),
            1 => (tangle_s(), prop::collection::vec(mut_s(), 0..2), any::<u8>()).prop_map(|(s, m, k)| {
                let mut cfg = Cfg::default();
                wild_cfg(&mut cfg, k);
                Wild { bytes: apply(&s, &m), cfg, how: "tangled groups".into() }
            }),
            1 => prop::collection::vec(any::<u8>(), 0..200).prop_map(|bytes| Wild { bytes, cfg: Cfg::default(), how: "bytes".into() }),
            1 => "[{}()\"/a \n0-9.e]{0,120}".prop_map(|s| Wild { bytes: s.into_bytes(), cfg: Cfg::default(), how: "text".into() }),
        ]
        .boxed()
    }
    fn fixed(_: bool) -> Vec<Wild> {
        let mut out = vec![];
        for (n, r) in [(3000, false), (20_000, false), (3000, true)] {
            out.push(Wild { bytes: chain_text(n, r).into_bytes(), cfg: basic_cfg(1), how: format!("chain of {n} groups") });
        }
        // long lines in which nearly every byte is inside a character
        for c in ["é", "日", "🧱"] {
            for (lead, len) in [("", 5000), ("a", 5000), ("ab", 5000), ("abc", 5000), ("a", 70_000)] {
                let n = lead.to_string() + &c.repeat(len);
                let face = |t: &str| format!("( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) {t} 0 0 0 1 1");
                for lines in [
                    format!("//{n}\n{{\n\"classname\" \"worldspawn\"\n//{n}\n}}"),
                    format!("{n}\n{{\n\"classname\" \"worldspawn\"\n{n}\n}}"),
                    format!("{{\n\"classname\" \"worldspawn\"\n\"{n}\" \"v\"\n\"k\" \"{n}\"\n\"{n}\" \"{n}\"\n}}"),
                    format!("{{\n\"classname\" \"worldspawn\"\n}}\n{{\n\"classname\" \"{n}\"\n\"_tb_id\" \"{n}\"\n}}"),
                    format!("{{\n\"classname\" \"worldspawn\"\n\"origin\" \"{n}\"\n\"_phong\" \"1\"\n\"_phong_angle\" \"{n}\"\n{{\n{}\n}}\n}}", face(&n)),
                    format!("{{\n\"classname\" \"worldspawn\"\n{{\n{} {n}\n}}\n}}", face("a")),
                    format!("{{{n}\n\"classname\" \"worldspawn\"\n}}{n}\n"),
                    format!("{{\n\"classname\" \"worldspawn\"\n\"{n}"),
                ] {
                    let mut cfg = Cfg::default();
                    wild_cfg(&mut cfg, 1);
                    out.push(Wild { bytes: lines.into_bytes(), cfg, how: "long lines".into() });
                }
            }
        }
        let w = "{\n\"classname\" \"worldspawn\"\n";
        for l in LINES {
            for pre in ["", w, "{\n\"classname\" \"worldspawn\"\n{\n"] {
                for post in ["", "\n}\n", "\n}\n}\n"] {
                    let mut cfg = Cfg::default();
                    wild_cfg(&mut cfg, 1);
                    out.push(Wild { bytes: format!("{pre}{l}{post}").into_bytes(), cfg, how: "one line".into() });
                }
            }
        }
        out
    }
    fn check(c: &Wild, obs: &mut Obs) -> Check {
        obs.sample = Some(format!("{}: {}", c.how, String::from_utf8_lossy(&c.bytes[..c.bytes.len().min(900)])));
        let lines = c.bytes.split(|b| *b == b'\n');
        let (mut faces, mut open) = (0, 0);
        for l in lines {
            faces += l.starts_with(b"(") as u32;
            open += l.starts_with(b"{") as u32;
        }
        let r = sut::run_bytes(&c.bytes, &c.cfg)?;
        obs.label(&format!("{}: {}", c.how.split(" of ").next().unwrap(), if r.is_ok() { "accepted" } else { "refused" }));
        if let Ok(t) = &r {
            let bad = format!("{t:?}");
            obs.label_if(bad.contains("NaN") || bad.contains("inf,"), "accepted with non-finite numbers in the result");
        }
        obs.nontrivial(faces > 0 || open > 1);
        Ok(())
    }
}

// ------------------------------------------------------------------ C08

/// A line of a map that may be out of place.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lines {
    lines: Vec<String>,
    faults: Vec<String>,
}
#[derive(Clone, Debug)]
enum Fault {
    Insert(u16, u8),
    Delete(u16),
    Dup(u16, u16),
    Move(u16, u16),
    End(u16),
    FaceDrop(u16, u16),
    FaceWord(u16, u16, u8),
    FaceCut(u16, u16),
    FaceMore(u16, u8),
    NoClass(u16),
    World(u16),
    Unworld,
}
fn is_number(t: &str) -> bool {
    t.parse::<f32>().is_ok()
}
/// How the reference grammar sees a face line.
#[derive(PartialEq, Debug, Clone, Copy)]
enum Verdict {
    Good,
    Bad,
    Unclear,
}
fn face_verdict(line: &str) -> Verdict {
    let t: Vec<&str> = line.split_whitespace().collect();
    let mut i = 0;
    let mut bad = false;
    let mut unclear = false;
    let mut next = || -> Option<&str> {
        let r = t.get(i).copied();
        i += 1;
        r
    };
    let number = |n: Option<&str>, bad: &mut bool| match n {
        Some(n) if is_number(n) => {}
        _ => *bad = true,
    };
    for _ in 0..3 {
        bad |= next() != Some("(");
        for _ in 0..3 {
            number(next(), &mut bad);
        }
        bad |= next() != Some(")");
    }
    if next().is_none() {
        bad = true;
    }
    match next() {
        Some("[") => {
            for k in 0..2 {
                for _ in 0..4 {
                    number(next(), &mut bad);
                }
                bad |= next() != Some("]");
                if k == 0 {
                    bad |= next() != Some("[");
                }
            }
        }
        n => {
            number(n, &mut bad);
            number(next(), &mut bad);
        }
    }
    for _ in 0..3 {
        number(next(), &mut bad);
    }
    let extra = if i <= t.len() { &t[i..] } else { &[] };
    match extra.len() {
        0 => {}
        1 | 3 | 6 => {
            for (k, e) in extra.iter().enumerate() {
                if !is_number(e) {
                    bad = true;
                } else if extra.len() > 1 && k < 2 && e.parse::<i32>().is_err() {
                    unclear = true; // a fraction where games write whole numbers
                }
            }
        }
        _ => bad = true,
    }
    if bad {
        Verdict::Bad
    } else if unclear {
        Verdict::Unclear
    } else {
        Verdict::Good
    }
}
/// The reference acceptor: class names in file order, or why not.
fn accept(lines: &[String]) -> (Verdict, Vec<String>, &'static str) {
    let mut depth = 0;
    let mut classes: Vec<Option<String>> = vec![];
    let mut v = Verdict::Good;
    let bad = |w: &'static str| (Verdict::Bad, vec![], w);
    for l in lines {
        match l.chars().next() {
            Some('{') => {
                depth += 1;
                match depth {
                    1 => classes.push(None),
                    2 => {}
                    _ => return bad("brace opens inside a brush"),
                }
            }
            Some('}') => {
                if depth == 0 {
                    return bad("brace closes nothing");
                }
                if depth == 1 && classes.last().unwrap().is_none() {
                    return bad("entity without classname");
                }
                depth -= 1;
            }
            Some('"') => {
                if depth != 1 {
                    return bad("property out of place");
                }
                let p: Vec<&str> = l.split('"').collect();
                if p[1] == "classname" {
                    *classes.last_mut().unwrap() = Some(p[3].to_string());
                }
            }
            Some('(') => {
                if depth != 2 {
                    return bad("face line out of place");
                }
                match face_verdict(l) {
                    Verdict::Good => {}
                    Verdict::Bad => return bad("bad face line"),
                    Verdict::Unclear => v = Verdict::Unclear,
                }
            }
            _ => {}
        }
    }
    if depth > 0 {
        return bad("file ends inside an entity or brush");
    }
    let c: Vec<String> = classes.into_iter().flatten().collect();
    match c.iter().filter(|c| *c == "worldspawn").count() {
        0 => bad("no worldspawn"),
        1 => (v, c, ""),
        _ => bad("several worldspawns"),
    }
}
fn inject(lines: &mut Vec<String>, f: &Fault) {
    let n = lines.len();
    if n == 0 {
        return;
    }
    let pick = |lines: &Vec<String>, a: &u16, c: char| -> Option<usize> {
        let v: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].starts_with(c)).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[*a as usize % v.len()])
        }
    };
    let fields = |l: &str| -> Vec<usize> {
        (0..l.split(' ').count()).collect()
    };
    const WORDS: [&str; 14] = ["x", "1,5", "--1", "1e", "0x1F", "1.2.3", "half", "1_000", "1f", "+", "]", "[", ")", "("];
    match f {
        Fault::Insert(a, k) => {
            let l = [
                "{", "}", "\"key\" \"value\"", "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex 0 0 0 1 1",
                "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex [ 1 0 0 0 ] [ 0 1 0 0 ] 0 1 1 1 2 3", "// c", "word", "",
            ];
            lines.insert(*a as usize % (n + 1), l[*k as usize % l.len()].to_string());
        }
        Fault::Delete(a) => {
            lines.remove(*a as usize % n);
        }
        Fault::Dup(a, b) => {
            let l = lines[*a as usize % n].clone();
            lines.insert(*b as usize % (n + 1), l);
        }
        Fault::Move(a, b) => {
            let l = lines.remove(*a as usize % n);
            let n = lines.len();
            lines.insert(*b as usize % (n + 1), l);
        }
        Fault::End(a) => lines.truncate(*a as usize % n),
        Fault::FaceDrop(a, k) | Fault::FaceWord(a, k, _) => {
            if let Some(i) = pick(lines, a, '(') {
                let fs = fields(&lines[i]);
                if fs.is_empty() {
                    return;
                }
                let mut t: Vec<&str> = lines[i].split(' ').collect();
                let k = fs[*k as usize % fs.len()];
                match f {
                    Fault::FaceWord(_, _, w) => t[k] = WORDS[*w as usize % WORDS.len()],
                    _ => {
                        t.remove(k);
                    }
                }
                lines[i] = t.join(" ");
            }
        }
        Fault::FaceCut(a, k) => {
            if let Some(i) = pick(lines, a, '(') {
                let t: Vec<&str> = lines[i].split(' ').collect();
                let k = 1 + *k as usize % t.len();
                lines[i] = t[..k.min(t.len())].join(" ");
            }
        }
        Fault::FaceMore(a, k) => {
            if let Some(i) = pick(lines, a, '(') {
                for j in 0..1 + *k as usize % 8 {
                    lines[i] += &format!(" {}", (*k as usize / 8 + j) % 7);
                }
            }
        }
        Fault::NoClass(a) => {
            let v: Vec<usize> = (0..n).filter(|i| lines[*i].starts_with("\"classname\"")).collect();
            if !v.is_empty() {
                lines.remove(v[*a as usize % v.len()]);
            }
        }
        Fault::World(a) => {
            let v: Vec<usize> = (0..n).filter(|i| lines[*i].starts_with("\"classname\"")).collect();
            if !v.is_empty() {
                lines[v[*a as usize % v.len()]] = "\"classname\" \"worldspawn\"".into();
            }
        }
        Fault::Unworld => {
            for l in lines.iter_mut() {
                if l == "\"classname\" \"worldspawn\"" {
                    *l = "\"classname\" \"Worldspawn\"".into();
                }
            }
        }
    }
}
pub struct C08;
impl Prop for C08 {
    type Case = Lines;
    const ID: &'static str = "C08";
    const CASES: (u64, u64) = (180_000, 2_700_000);
    const RULE: &'static str = "the lines of a well-formed map (all face dialects) with 0-3 faults: a line inserted, deleted, duplicated, moved or the file cut; a face line's field or bracket removed or replaced by a word or bracket, the line cut or lengthened; classnames removed, doubled or misspelt worldspawn; acceptance and the list of classnames are compared with an independent reference grammar; lines whose only fault is a fraction among the whole-number extras are skipped (counted); non-trivial: at least one fault";
    const ASSUME: &'static [&'static str] = &["the harness's reference grammar states the accepted maps"];
    fn strategy(_: bool) -> BoxedStrategy<Lines> {
        let i = any::<u16>;
        let fault = || {
            prop_oneof![
                3 => (i(), any::<u8>()).prop_map(|(a, b)| Fault::Insert(a, b)),
                2 => i().prop_map(Fault::Delete),
                1 => (i(), i()).prop_map(|(a, b)| Fault::Dup(a, b)),
                2 => (i(), i()).prop_map(|(a, b)| Fault::Move(a, b)),
                1 => i().prop_map(Fault::End),
                2 => (i(), i()).prop_map(|(a, b)| Fault::FaceDrop(a, b)),
                3 => (i(), i(), any::<u8>()).prop_map(|(a, b, c)| Fault::FaceWord(a, b, c)),
                1 => (i(), i()).prop_map(|(a, b)| Fault::FaceCut(a, b)),
                2 => (i(), any::<u8>()).prop_map(|(a, b)| Fault::FaceMore(a, b)),
                1 => i().prop_map(Fault::NoClass),
                1 => i().prop_map(Fault::World),
                1 => Just(Fault::Unworld),
            ]
        };
        (scene(geom::boxes, 4, 0), prop::collection::vec(fault(), 0..4))
            .prop_map(|(s, faults)| {
                let mut lines = vec![];
                for e in &s.ents {
                    ent_lines(e, &mut lines);
                }
                // values that look like structure are C06's business
                lines.retain(|l| !l.contains('\u{0}'));
                for f in &faults {
                    inject(&mut lines, f);
                }
                Lines { lines, faults: faults.iter().map(|f| format!("{f:?}")).collect() }
            })
            .boxed()
    }
    fn fixed(_: bool) -> Vec<Lines> {
        let f = |s: &str| Lines { lines: s.lines().map(|l| l.to_string()).collect(), faults: vec!["fixed".into()] };
        let w = "{\n\"classname\" \"worldspawn\"\n}";
        let mut out = vec![
            f(""), f("// only a comment"), f(w), f("{"), f("}"), f("{\n}"), f("{\n{\n}\n}"),
            f(&format!("{w}\n{{")), f(&format!("{w}\n}}")), f(&format!("{w}\n{w}")),
            f("{\n\"classname\" \"worldspawn\"\n{"), f("{\n\"classname\" \"worldspawn\"\n{\n}"),
            f("{\n\"classname\" \"worldspawn\"\n{\n}\n}"), f("\"a\" \"b\""), f(&format!("{w}\n\"a\" \"b\"")),
            f("{\n\"classname\" \"light\"\n}"), f("{\n\"classname\" \"light\"\n\"classname\" \"worldspawn\"\n}"),
            f("{\n\"classname\" \"worldspawn\"\n\"classname\" \"light\"\n}"),
        ];
        // every dialect: complete, every prefix, every field replaced, 0-8 extras
        for align in ["0 0", "[ 1 0 0 0 ] [ 0 -1 0 0 ]"] {
            for extras in 0..=8 {
                let mut l = format!("( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex {align} 0 1 1");
                for e in 0..extras {
                    l += &format!(" {}", e + 1);
                }
                let t: Vec<&str> = l.split(' ').collect();
                let put = |l: &str, out: &mut Vec<Lines>| {
                    out.push(f(&format!("{{\n\"classname\" \"worldspawn\"\n{{\n{l}\n}}\n}}")));
                };
                for k in 1..=t.len() {
                    put(&t[..k].join(" "), &mut out);
                }
                for k in 0..t.len() {
                    for w in ["abc", "(", "]", "1"] {
                        let mut u = t.clone();
                        u[k] = w;
                        put(&u.join(" "), &mut out);
                    }
                    let mut u = t.clone();
                    u.remove(k);
                    put(&u.join(" "), &mut out);
                }
            }
        }
        // long lists, faultless and with a fault at the end
        let mut crowd = super::structure::crowd(1100);
        let mut brushes = Ent::new("func_wall");
        for i in 0..1100 {
            let mut b = super::surf::plain_brush(geom::simple_box([i % 32 * 40, i / 32 * 40, 0], [16, 24, 8]));
            set_texture(&mut b, "tex");
            brushes.brushes.push(b);
        }
        crowd.ents.push(brushes);
        for e in &mut crowd.ents {
            e.props.retain(|p| p.0 != "_tb_group");
        }
        let good: Vec<String> = crowd.text().lines().map(|l| l.to_string()).collect();
        let n = good.len();
        out.push(Lines { lines: good.clone(), faults: vec![] });
        let words = "word ".repeat(2000);
        for (at, l) in [
            (n, "{"), (n, "}"), (n - 1, "{"), (n - 1, "}"), (n - 2, "}"), (n - 3, "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex 0 0 0 1"),
            (n / 2, "{"), (n, "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex 0 0 0 1 1"), (n - 3, words.as_str()),
        ] {
            let mut lines = good.clone();
            lines.insert(at, l.to_string());
            out.push(Lines { lines, faults: vec!["fixed".into()] });
        }
        // names of any length
        for len in LENGTHS {
            let long = "n".repeat(len);
            out.push(f(&format!("{{\n\"classname\" \"worldspawn\"\n{{\n( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) {long} 0 0 0 1 1\n}}\n}}\n{{\n\"classname\" \"{long}\"\n\"{long}\" \"{long}\"\n}}")));
        }
        out
    }
    fn check(c: &Lines, obs: &mut Obs) -> Check {
        let (v, classes, why) = accept(&c.lines);
        obs.sample = Some(format!("faults {:?}, {v:?} {why}: {}", c.faults, c.lines.join(" | ")));
        obs.nontrivial(!c.faults.is_empty());
        if v == Verdict::Unclear {
            obs.label("skipped: unspecified");
            return Ok(());
        }
        obs.label(if v == Verdict::Good { if c.faults.is_empty() { "well-formed" } else { "still well-formed" } } else { why });
        let mut text = c.lines.join("\n");
        text.push('\n');
        let mut cfg = basic_cfg(1);
        cfg.textures.push(("tex".into(), 16, 16));
        match (sut::run_bytes(text.as_bytes(), &cfg)?, v) {
            (Err(e), Verdict::Good) => Err(format!("well-formed map refused: {e}")),
            (Ok(_), Verdict::Bad) => Err(format!("map accepted although: {why}")),
            (Ok(t), Verdict::Good) => {
                let mut got = vec![];
                actors(&t, &mut got);
                let got: Vec<&str> = got.iter().map(|n| actor(n).name.as_str()).collect();
                let w = classes.iter().position(|c| c == "worldspawn").unwrap();
                let want: Vec<&str> = std::iter::once(w)
                    .chain((0..classes.len()).filter(|i| *i != w))
                    .map(|i| classes[i].as_str())
                    .collect();
                // grouped entities whose group is gone are not the subject here
                if c.lines.iter().any(|l| l.starts_with("\"_tb_group\"")) {
                    return Ok(());
                }
                if got != want {
                    return Err(format!("entities {want:?} became actors {got:?}"));
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
}
