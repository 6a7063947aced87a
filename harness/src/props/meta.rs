//! C20 repeatability, C21 independence, C22 motions.
use crate::geom::{self, GBrush, D3};
use crate::mapdoc::*;
use crate::props::structure::zip;
use crate::runner::{Check, Obs, Prop};
use crate::scene::*;
use crate::sut::{self, ChoiceVal, ClassDef, Coll, Data, FgdClass, FgdData, FgdMeta, LayerDef, Node, Surf, V3};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

const SHARED: [&str; 14] = [
    "brick", "Wall", "*water0", "*slime0", "trigger", "clip", "sky1", "{fence", "unknown", "+1brick", "+0clip", "base/wall",
    "textures/castle_of_the_north/courtyard/walls_and_floors/of_stone_from_the_quarry/brick_1",
    "textures/castle_of_the_north/courtyard/walls_and_floors/of_stone_from_the_quarry/brick_2",
];

/// Gives faces textures from a small pool, brush by brush.
fn recolor(ents: &mut [Ent], cfg: &mut sut::Cfg, names: &[u8]) {
    if names.is_empty() {
        return;
    }
    let mut k = 0;
    for b in ents.iter_mut().flat_map(|e| &mut e.brushes) {
        let n = names[k % names.len()];
        k += 1;
        for (i, f) in b.faces.iter_mut().enumerate() {
            let j = if n & 0x40 != 0 { n as usize + i } else { n as usize };
            f.tex = SHARED[j % SHARED.len()].into();
        }
    }
    cfg.textures.clear();
    add_textures(cfg, ents);
    cfg.textures.retain(|t| t.0 != "unknown" && (t.0 != "+1brick" || names[0] % 3 == 0));
    cfg.black_brush = vec!["clip".into()];
    cfg.black_plane = vec!["trigger".into()];
}
fn layer_s() -> BoxedStrategy<LayerDef> {
    (
        prop::sample::select(vec!["*water0", "*slime0", "*water0", "brick"]),
        prop_oneof![3 => "[A-Z][a-z]{1,4}", 1 => Just(String::new())],
        etype_s(),
        script_s(),
        any::<bool>(),
        0u8..3,
    )
        .prop_map(|(t, name, etype, script, mesh, coll)| LayerDef { name, texture: t.into(), etype, script, mesh, coll })
        .boxed()
}
/// Makes every class a visible brush class, phong on some entities.
fn show_all(s: &mut Scene, coll: u8, phong: u16) {
    for c in &mut s.cfg.classes {
        let k = c.brush.map_or(coll, |b| b.1);
        c.brush = Some((true, k));
    }
    let names: Vec<String> = s.ents.iter().map(|e| e.class().to_string()).collect();
    for n in names {
        if !s.cfg.classes.iter().any(|c| c.name == n) {
            s.cfg.classes.push(class(&n, Some((true, coll))));
        }
    }
    for (i, e) in s.ents.iter_mut().enumerate() {
        if phong >> (i % 16) & 1 == 1 {
            e.props.push(("_phong".into(), "1".into()));
            if i % 2 == 1 {
                e.props.push(("_phong_angle".into(), "50".into()));
            }
        }
    }
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Runs {
    pub a: Scene,
    pub b: Scene,
    /// byte of a's file at which it ends
    pub cut: Option<u16>,
    pub process: bool,
}
fn outcome(r: Result<Vec<Node>, String>) -> String {
    match r {
        Ok(t) => format!("{t:?}"),
        Err(_) => "error".into(),
    }
}
fn safe(path: &str, cfg: &sut::Cfg) -> String {
    std::panic::catch_unwind(|| outcome(sut::run_plain(path, cfg))).unwrap_or_else(|_| "panic".into())
}
fn first_difference(a: &str, b: &str) -> String {
    let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let mut lo = at.saturating_sub(60);
        while !s.is_char_boundary(lo) {
            lo -= 1;
        }
        s[lo..].chars().take(140).collect::<String>()
    };
    format!("…{} versus …{}", cut(a), cut(b))
}

/// Entry point of the separate process: case file, map file, output file.
pub fn dump(args: &[String]) -> i32 {
    sut::quiet();
    let cfg: sut::Cfg = serde_json::from_slice(&std::fs::read(&args[0]).unwrap()).unwrap();
    let s = safe(&args[1], &cfg);
    std::fs::write(&args[2], s).unwrap();
    0
}

pub struct C20;
impl Prop for C20 {
    type Case = Runs;
    const ID: &'static str = "C20";
    const CASES: (u64, u64) = (24_000, 400_000);
    const RULE: &'static str = "scenes of up to 8 entities with groups, brushes of all shapes, shared and unique textures, blacklists, up to 4 worldspawn layers and random game data, some cut off at a random byte: built repeatedly, alternating with another scene (half the time a variant of the first: same brushes or entities, other texture sizes, scales, classes, layers or blacklists) in the same file, on three threads at once (together with the other scene), and for one case in eight in a separate process; the printed trees must agree in every bit (failures in failing); non-trivial: a scene with at least two textures or layers that builds";
    fn strategy(_: bool) -> BoxedStrategy<Runs> {
        let sc = || {
            (
                scene(geom::plain, 8, 4),
                prop::collection::vec(any::<u8>(), 0..8),
                prop::collection::vec(layer_s(), 0..5),
                (0u8..3, any::<u16>(), any::<u16>()),
            )
                .prop_map(|(mut s, names, layers, (coll, show, phong))| {
                    recolor(&mut s.ents, &mut s.cfg, &names);
                    s.cfg.layers = layers;
                    if show % 4 != 0 {
                        show_all(&mut s, coll, phong);
                    }
                    s
                })
        };
        (
            sc(),
            sc(),
            prop_oneof![9 => Just(None), 1 => any::<u16>().prop_map(Some)],
            prop_oneof![7 => Just(false), 1 => Just(true)],
            any::<u16>(),
        )
            .prop_map(|(a, mut b, cut, process, like)| {
                // the other scene as a variant of the first
                if like & 1 == 1 {
                    if like & 2 > 0 {
                        b.ents = a.ents.clone();
                    } else {
                        // same brushes, other properties
                        for (x, y) in b.ents.iter_mut().zip(&a.ents) {
                            x.brushes = y.brushes.clone();
                        }
                    }
                    if like & 4 > 0 {
                        b.cfg = a.cfg.clone();
                    }
                    add_textures(&mut b.cfg, &b.ents.clone());
                    b.cfg.textures.retain(|t| t.0 != "unknown");
                    if like & 8 > 0 {
                        for (i, t) in b.cfg.textures.iter_mut().enumerate() {
                            t.1 = t.1.wrapping_add(8 * (1 + i as u32 % 3));
                            t.2 = t.2.wrapping_mul(2);
                        }
                    }
                    if like & 16 > 0 {
                        for f in b.ents.iter_mut().flat_map(|e| &mut e.brushes).flat_map(|b| &mut b.faces) {
                            f.scale = f.scale.map(|s| s * 2.0);
                        }
                    }
                    if like & 32 > 0 {
                        let k = (b.cfg.layers.len() > 1) as usize;
                        b.cfg.layers.rotate_left(k);
                        b.cfg.classes.reverse();
                    }
                    if like & 64 > 0 {
                        b.cfg.fgd.classes.reverse();
                        for c in &mut b.cfg.fgd.classes {
                            c.props.truncate(2);
                        }
                    }
                    if like & 128 > 0 {
                        std::mem::swap(&mut b.cfg.black_brush, &mut b.cfg.black_plane);
                    }
                }
                Runs { a, b, cut, process }
            })
            .boxed()
    }
    fn check(c: &Runs, obs: &mut Obs) -> Check {
        let (mut ta, tb) = (c.a.text().into_bytes(), c.b.text().into_bytes());
        if let Some(k) = c.cut {
            let n = k as usize % (ta.len() + 1);
            ta.truncate(n);
        }
        let run = |bytes: &[u8], cfg: &sut::Cfg| sut::run_file(&sut::scratch_file("same.map", bytes), cfg).map(outcome);
        let first = run(&ta, &c.a.cfg)?;
        let other = run(&tb, &c.b.cfg)?;
        let textures = c.a.ents.iter().flat_map(|e| &e.brushes).flat_map(|b| &b.faces).map(|f| f.tex.clone()).collect::<std::collections::BTreeSet<_>>();
        obs.nontrivial(first != "error" && (textures.len() > 1 || c.a.cfg.layers.len() > 1));
        obs.label_if(first == "error", "scene that does not build");
        obs.label(&format!("{} layer definitions", c.a.cfg.layers.len()));
        let same = |what: &str, want: &str, got: &str| {
            if want == got {
                Ok(())
            } else {
                Err(format!("{what} differs from the first: {}", first_difference(want, got)))
            }
        };
        same("a second build", &first, &run(&ta, &c.a.cfg)?)?;
        same("the other scene's second build", &other, &run(&tb, &c.b.cfg)?)?;
        same("a third build", &first, &run(&ta, &c.a.cfg)?)?;
        let (pa, pb) = (sut::scratch_file("t1.map", &ta), sut::scratch_file("t2.map", &tb));
        let barrier = std::sync::Barrier::new(3);
        let mut got: Vec<(bool, String)> = vec![];
        sut::guard("threads", || {
            std::thread::scope(|s| {
                let hs: Vec<_> = [(true, &pa, &c.a.cfg), (true, &pa, &c.a.cfg), (false, &pb, &c.b.cfg)]
                    .into_iter()
                    .map(|(is_a, p, cfg)| {
                        let barrier = &barrier;
                        s.spawn(move || {
                            barrier.wait();
                            (is_a, safe(p, cfg))
                        })
                    })
                    .collect();
                got = hs.into_iter().map(|h| h.join().unwrap()).collect();
            })
        })?;
        for (is_a, g) in &got {
            same("a build on one of several threads", if *is_a { &first } else { &other }, g)?;
        }
        if c.process {
            obs.label("separate process");
            for (path, cfg, want) in [(&pa, &c.a.cfg, &first), (&pb, &c.b.cfg, &other)] {
                let case = sut::scratch_file("cfg.json", &serde_json::to_vec(cfg).unwrap());
                let out = sut::scratch().join("dump.txt").to_str().unwrap().to_string();
                let _ = std::fs::remove_file(&out);
                let st = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["dump", &case, path, &out])
                    .stdin(std::process::Stdio::null())
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status()
                    .expect("start of a separate process");
                let d = std::fs::read_to_string(&out).map_err(|e| format!("a build in a separate process ended with {st}: {e}"))?;
                same("a build in a separate process", want, &d)?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Insert { at: u16, ent: Ent, group: Option<u16> },
    Remove(u16),
    Swap(u16, u16),
    Rotate(u16),
    AddBrush { ent: u16, at: u16, brush: Brush },
    /// an entity with the brushes of another and properties of its own
    Copy { at: u16, of: u16, ent: Ent },
    /// a brush that another entity, or this one, has
    AddCopy { ent: u16, at: u16, of: (u16, u16) },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edited {
    pub s: Scene,
    pub edits: Vec<Edit>,
}
fn added_ent() -> BoxedStrategy<Ent> {
    (
        prop::sample::select(vec!["func_detail", "light", "door", "trigger_multiple", "brand_new", "func_group", "Func_Detail"]),
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(brush_with(geom::plain()), 1..3)],
        origin_s(),
        prop::collection::vec((prop::sample::select(KEYS.to_vec()), word_s()), 0..4),
        any::<u8>(),
        prop::collection::vec(any::<u8>(), 1..3),
    )
        .prop_map(|(class, brushes, origin, props, phong, names)| {
            let mut e = Ent { brushes, ..Ent::new(class) };
            if let Some(o) = origin {
                e.props.push(("origin".into(), o));
            }
            for (k, v) in props {
                if k != "origin" && e.get(k).is_none() && !v.contains('"') {
                    e.props.push((k.into(), v));
                }
            }
            if phong % 3 == 0 {
                e.props.push(("_phong".into(), "1".into()));
            }
            if phong % 9 == 0 {
                e.props.push(("_phong_angle".into(), "89".into()));
            }
            for (b, n) in e.brushes.iter_mut().zip(names.iter().cycle()) {
                set_texture(b, SHARED[*n as usize % SHARED.len()]);
            }
            e
        })
        .boxed()
}
/// What belongs to an entity itself: everything but its group's members.
fn own(n: &Node) -> (V3, &sut::Actor, Vec<&Node>) {
    (n.origin, actor(n), children(n).iter().filter(|c| !matches!(c.data, Data::Actor(..))).collect())
}
fn nodes_of<'a>(ents: &[Ent], tree: &'a [Node]) -> Result<BTreeMap<usize, &'a Node>, String> {
    let want = expected(ents).ok_or("ill-formed groups")?;
    // layers are not entities
    let mut v = vec![];
    zip(&want, tree, ents, &mut v, None).map_err(|m| format!("(structure) {m}"))?;
    Ok(v.into_iter().map(|(i, n, _)| (i, n)).collect())
}
fn surf_by_texture<'a>(n: &'a Node) -> BTreeMap<Option<&'a str>, &'a Surf> {
    surfaces(n).into_iter().map(|s| (s.texture.as_deref(), s)).collect()
}

pub struct C21;
impl Prop for C21 {
    type Case = Edited;
    const ID: &'static str = "C21";
    const CASES: (u64, u64) = (60_000, 900_000);
    const RULE: &'static str = "scenes as C01 with plain brushes, shared or unique textures, phong on some entities, and 1-4 edits: entities inserted anywhere (with any properties, brushes of shared textures or the very brushes of another entity, also into groups), removed, swapped or rotated in the file, or a brush (new or a copy of another) added anywhere in an entity; entities untouched by the edits must come out exactly equal (origin, actor, properties, geometry), and in entities given a brush every earlier face's surface and convex shape exactly equal; non-trivial: at least one surviving entity with geometry and at least one edit that changes the file";
    fn strategy(_: bool) -> BoxedStrategy<Edited> {
        let edit = || {
            prop_oneof![
                3 => (any::<u16>(), added_ent(), prop_oneof![2 => Just(None), 1 => any::<u16>().prop_map(Some)])
                    .prop_map(|(at, ent, group)| Edit::Insert { at, ent, group }),
                2 => any::<u16>().prop_map(Edit::Remove),
                1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Edit::Swap(a, b)),
                1 => any::<u16>().prop_map(Edit::Rotate),
                2 => (any::<u16>(), any::<u16>(), added_ent()).prop_map(|(at, of, ent)| Edit::Copy { at, of, ent }),
            ]
        };
        let brush = prop_oneof![
            2 => (any::<u16>(), any::<u16>(), brush_with(geom::plain()))
                .prop_map(|(ent, at, brush)| Edit::AddBrush { ent, at, brush }),
            1 => (any::<u16>(), any::<u16>(), any::<(u16, u16)>())
                .prop_map(|(ent, at, of)| Edit::AddCopy { ent, at, of }),
        ];
        (
            scene(geom::plain, 7, 4),
            prop::collection::vec(any::<u8>(), 0..6),
            (0u8..3, any::<u16>(), any::<bool>()),
            prop::collection::vec(edit(), 1..5),
            prop::collection::vec(brush, 1..3),
        )
            .prop_map(|(mut s, names, (coll, phong, show), mut edits, brushes)| {
                let unique = names.len() % 2 == 0;
                if !unique {
                    recolor(&mut s.ents, &mut s.cfg, &names);
                    // worldspawn's liquids are C18's subject
                    for f in s.ents.iter_mut().flat_map(|e| &mut e.brushes).flat_map(|b| &mut b.faces) {
                        if f.tex.starts_with('*') {
                            f.tex = "brick".into();
                        }
                    }
                    s.cfg.textures.clear();
                }
                if show || unique {
                    show_all(&mut s, coll, phong);
                }
                if unique {
                    edits.extend(brushes);
                }
                // the texture table holds every texture of either map
                for t in SHARED.iter().take(8) {
                    let n = t.to_lowercase();
                    if !s.cfg.textures.iter().any(|x| x.0 == n) {
                        let (w, h) = tex_size(&n);
                        s.cfg.textures.push((n, w, h));
                    }
                }
                let ents = s.ents.clone();
                add_textures(&mut s.cfg, &ents);
                s.cfg.textures.retain(|t| t.0 != "unknown");
                Edited { s, edits }
            })
            .boxed()
    }
    fn check(c: &Edited, obs: &mut Obs) -> Check {
        let base = &c.s.ents;
        let mut cfg = c.s.cfg.clone();
        // (entity, index in base)
        let mut now: Vec<(Ent, Option<usize>)> = base.iter().cloned().zip((0..).map(Some)).collect();
        let mut grown: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        let mut changes = 0;
        let mut fresh = 0;
        for e in &c.edits {
            let n = now.len();
            let shares_id = |v: &[(Ent, Option<usize>)], i: usize| {
                v[i].0.get("_tb_id").map_or(false, |id| {
                    v.iter().enumerate().any(|(j, x)| j != i && (x.0.get("_tb_id") == Some(id) || x.0.get("_tb_group") == Some(id)))
                })
            };
            let doubled = (0..n).any(|i| {
                now[i].0.get("_tb_id").map_or(false, |id| (0..i).any(|j| now[j].0.get("_tb_id") == Some(id)))
            });
            match e {
                Edit::Insert { at, ent, group } => {
                    let mut ent = ent.clone();
                    if let Some(g) = group {
                        let ids: Vec<&str> = now.iter().filter_map(|x| x.0.get("_tb_id")).collect();
                        if !ids.is_empty() {
                            ent.props.push(("_tb_group".into(), ids[*g as usize % ids.len()].to_string()));
                        }
                    }
                    now.insert(*at as usize % (n + 1), (ent, None));
                    obs.label("edit: entity inserted");
                    changes += 1;
                }
                Edit::Remove(k) => {
                    let i = *k as usize % n;
                    if now[i].0.class() == "worldspawn" || shares_id(&now, i) {
                        continue;
                    }
                    now.remove(i);
                    obs.label("edit: entity removed");
                    changes += 1;
                }
                // which of several entities with one id is the parent depends on their order
                Edit::Swap(..) | Edit::Rotate(_) if doubled => continue,
                Edit::Swap(a, b) => {
                    let (a, b) = (*a as usize % n, *b as usize % n);
                    now.swap(a, b);
                    changes += (a != b) as usize;
                    obs.label("edit: entities swapped");
                }
                Edit::Rotate(k) => {
                    now.rotate_left(*k as usize % n);
                    changes += (*k as usize % n > 0) as usize;
                    obs.label("edit: entities rotated");
                }
                Edit::Copy { at, of, ent } => {
                    let mut ent = ent.clone();
                    ent.brushes = now[*of as usize % n].0.brushes.clone();
                    now.insert(*at as usize % (n + 1), (ent, None));
                    obs.label("edit: entity with the same brushes inserted");
                    changes += 1;
                }
                Edit::AddBrush { .. } | Edit::AddCopy { .. } => {
                    let (ent, at) = match e {
                        Edit::AddBrush { ent, at, .. } | Edit::AddCopy { ent, at, .. } => (ent, at),
                        _ => unreachable!(),
                    };
                    let brush = match e {
                        Edit::AddBrush { brush, .. } => brush.clone(),
                        Edit::AddCopy { of, .. } => {
                            let b = &now[of.0 as usize % n].0.brushes;
                            if b.is_empty() {
                                continue;
                            }
                            b[of.1 as usize % b.len()].clone()
                        }
                        _ => unreachable!(),
                    };
                    obs.label_if(matches!(e, Edit::AddCopy { .. }), "edit: copy of a brush added");
                    let mut v: Vec<usize> = (0..n).filter(|i| now[*i].1.is_some() && !now[*i].0.brushes.is_empty()).collect();
                    if v.is_empty() {
                        continue;
                    }
                    let i = v.swap_remove(*ent as usize % v.len());
                    let mut b = brush.clone();
                    for f in &mut b.faces {
                        f.tex = format!("fresh_{fresh}");
                        fresh += 1;
                    }
                    let k = now[i].1.unwrap();
                    let map = grown.entry(k).or_insert_with(|| (0..base[k].brushes.len()).collect());
                    let at = *at as usize % (now[i].0.brushes.len() + 1);
                    now[i].0.brushes.insert(at, b);
                    for m in map.iter_mut() {
                        *m += (*m >= at) as usize;
                    }
                    obs.label("edit: brush added");
                    changes += 1;
                }
            }
        }
        let ents: Vec<Ent> = now.iter().map(|x| x.0.clone()).collect();
        add_textures(&mut cfg, &ents);
        cfg.textures.retain(|t| t.0 != "unknown");
        let t0 = sut::run_ok(&text(base), &cfg)?;
        let t1 = sut::run_ok(&text(&ents), &cfg)?;
        let (n0, n1) = (nodes_of(base, &t0)?, nodes_of(&ents, &t1)?);
        let mut solid = 0;
        for (j, (e, from)) in now.iter().enumerate() {
            let i = match from {
                Some(i) => *i,
                None => continue,
            };
            let (a, b) = (own(n0[&i]), own(n1[&j]));
            solid += !a.2.is_empty() as usize;
            let name = format!("entity {i} ({}, now {j})", e.class());
            match grown.get(&i) {
                None => {
                    // an own group parent that grew has moved
                    let parent_grew = base[i].get("_tb_group").map_or(false, |g| {
                        grown.keys().any(|k| base[*k].get("_tb_id") == Some(g) && base[*k].get("origin").is_none())
                    });
                    if (a.0 != b.0 && !parent_grew) || a.1 != b.1 || a.2 != b.2 {
                        return Err(format!("{name} changed: {}", first_difference(&format!("{a:?}"), &format!("{b:?}"))));
                    }
                }
                Some(map) => {
                    if a.1 != b.1 {
                        return Err(format!("{name} changed with its brushes: {:?} became {:?}", a.1, b.1));
                    }
                    let (s0, s1) = (surf_by_texture(n0[&i]), surf_by_texture(n1[&j]));
                    for (t, s) in &s0 {
                        if s1.get(t) != Some(s) {
                            return Err(format!(
                                "{name}: surface {t:?} changed when a brush was added: {}",
                                first_difference(&format!("{:?}", Some(s)), &format!("{:?}", s1.get(t)))
                            ));
                        }
                    }
                    if let (Some(Coll::Convex(x)), Some(Coll::Convex(y))) = (collision(n0[&i]), collision(n1[&j])) {
                        for (k, m) in map.iter().enumerate() {
                            if x.get(k) != y.get(*m) {
                                return Err(format!("{name}: shape {k} became {:?} instead of {:?}", y.get(*m), x.get(k)));
                            }
                        }
                    }
                }
            }
        }
        obs.nontrivial(changes > 0 && solid > 0);
        Ok(())
    }
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Motion {
    /// by multiples of 1/4
    Move([i32; 3]),
    /// quarter turns about these axes, one after the other
    Turn(Vec<u8>),
    Scale(i8),
    /// other points on each plane
    Points(Vec<[i8; 6]>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Moved {
    pub s: Scene,
    pub m: Motion,
}
fn turn(axis: u8, p: D3) -> D3 {
    let a = axis as usize % 3;
    let (b, c) = ((a + 1) % 3, (a + 2) % 3);
    let mut q = p;
    q[b] = -p[c];
    q[c] = p[b];
    q
}
impl Motion {
    fn lin(&self, p: D3) -> D3 {
        match self {
            Motion::Turn(v) => v.iter().fold(p, |p, a| turn(*a, p)),
            Motion::Scale(k) => geom::mul(p, 2f64.powi(*k as i32)),
            _ => p,
        }
    }
    fn dir(&self, p: D3) -> D3 {
        match self {
            Motion::Turn(_) => self.lin(p),
            _ => p,
        }
    }
    fn at(&self, p: D3) -> D3 {
        match self {
            Motion::Move(d) => geom::add(p, d.map(|x| x as f64 / 4.0)),
            _ => self.lin(p),
        }
    }
    /// -0.0 is written as 0
    fn at0(&self, p: D3) -> D3 {
        self.at(p).map(|c| c + 0.0)
    }
    fn factor(&self) -> f64 {
        match self {
            Motion::Scale(k) => 2f64.powi(*k as i32),
            _ => 1.0,
        }
    }
}
/// Other points on the face's plane, if they can be written exactly.
fn other_points(pts: &[V3; 3], r: &[i8; 6]) -> [V3; 3] {
    let p = pts.map(geom::d3);
    let (e1, e2) = (geom::sub(p[1], p[0]), geom::sub(p[2], p[0]));
    let c = |i: usize| (r[2 * i] as f64, r[2 * i + 1] as f64);
    let q: Vec<D3> = (0..3)
        .map(|i| {
            let (a, b) = c(i);
            geom::add(p[0], geom::add(geom::mul(e1, a), geom::mul(e2, b)))
        })
        .collect();
    let det = (c(1).0 - c(0).0) * (c(2).1 - c(0).1) - (c(2).0 - c(0).0) * (c(1).1 - c(0).1);
    let exact = q.iter().flatten().all(|x| *x as f32 as f64 == *x && (*x * 4096.0).fract() == 0.0 && x.abs() < 1e5);
    // far-apart points on the exact plane
    if det != 0.0 && exact {
        let mut o = [q[0], q[1], q[2]];
        if det < 0.0 {
            o.swap(1, 2);
        }
        o.map(|x| x.map(|c| c as f32 + 0.0))
    } else {
        let mut o = *pts;
        o.rotate_left(r[0].rem_euclid(3) as usize);
        o
    }
}
fn move_brush(b: &GBrush, m: &Motion, k: &mut usize) -> GBrush {
    match m {
        Motion::Points(rs) => {
            let mut g = b.clone();
            for f in &mut g.faces {
                f.pts = other_points(&f.pts, &rs[*k % rs.len()]);
                *k += 1;
            }
            g
        }
        _ => b.map(|p| m.at0(p), |d| m.dir(d)),
    }
}
/// A position given by its origin property or its brushes.
fn placed(e: &Ent) -> bool {
    e.get("origin").is_some() || !e.brushes.is_empty()
}
/// Every point of one set has one of the other next to it.
fn same_points(a: &[D3], b: &[D3], tol: impl Fn(D3) -> f64) -> Check {
    for (x, y, w) in [(a, b, "lost"), (b, a, "new")] {
        for p in x {
            let d = y.iter().map(|q| geom::dist(*p, *q)).fold(f64::INFINITY, f64::min);
            if d > tol(*p) {
                return Err(format!("point {p:?} {w} (nearest at {d})"));
            }
        }
    }
    Ok(())
}
/// Sum of the triangles' area vectors, and their circumference.
fn area(verts: &[V3], idx: &[usize]) -> Result<(D3, f64, usize), String> {
    let (mut a, mut c) = ([0.0; 3], 0.0);
    for t in idx.chunks(3) {
        if t.len() < 3 || t.iter().any(|i| *i >= verts.len()) {
            return Err("broken index list".into());
        }
        let p = [0, 1, 2].map(|i| geom::d3(verts[t[i]]));
        a = geom::add(a, geom::mul(geom::cross(geom::sub(p[1], p[0]), geom::sub(p[2], p[0])), 0.5));
        c += geom::dist(p[0], p[1]) + geom::dist(p[1], p[2]) + geom::dist(p[2], p[0]);
    }
    Ok((a, c, idx.len() / 3))
}
fn same_outline(v0: &[V3], i0: &[usize], v1: &[V3], i1: &[usize], m: &Motion) -> Check {
    let k = m.factor();
    let tol = |p: D3| 2.0 * geom::tol_at(p) * k.max(1.0);
    let w0: Vec<D3> = v0.iter().map(|p| m.at(geom::d3(*p))).collect();
    let w1: Vec<D3> = v1.iter().map(|p| geom::d3(*p)).collect();
    same_points(&w0, &w1, tol)?;
    let ((a0, _, n0), (a1, c1, n1)) = (area(v0, i0)?, area(v1, i1)?);
    let want = geom::mul(m.dir(a0), k * k);
    let t = w1.iter().fold(0.0f64, |a, p| a.max(tol(*p)));
    if geom::dist(want, a1) > 1e-5 * geom::len(want) + 2.0 * c1 * t {
        return Err(format!("triangles span area {a1:?} instead of {want:?}"));
    }
    if v0.len() == v1.len() && n0 != n1 {
        return Err(format!("{n1} triangles instead of {n0}"));
    }
    Ok(())
}

pub struct C22;
impl Prop for C22 {
    type Case = Moved;
    const ID: &'static str = "C22";
    const CASES: (u64, u64) = (60_000, 900_000);
    const RULE: &'static str = "grouped scenes with brushes of all shapes (as C09), every face with its own texture, moved by multiples of 1/4 up to 4000 units or of 256 up to 262144, turned by 1-3 quarter turns about any axes, scaled by 1/4 to 2048 (where the result stays within C09's domain), or rewritten with other points on the same planes; compared node by node: positions of actors, geometry and collision centres, vertices, area vectors and triangle counts of every face, flat normals, and, where the motion keeps them, tangents and texture coordinates; non-trivial: at least one brush that is not a box";
    const ASSUME: &'static [&'static str] = &["tolerances: twice C09's for vertices, C02's for centres"];
    fn strategy(_: bool) -> BoxedStrategy<Moved> {
        let motion = prop_oneof![
            prop::array::uniform3(-16000i32..16000).prop_map(Motion::Move),
            prop::array::uniform3(-200i32..200).prop_map(Motion::Move),
            // far beyond the bounds of any game's maps
            (prop::array::uniform3(-64i32..65), 10u32..15).prop_map(|(d, k)| Motion::Move(d.map(|x| x << k))),
            prop::collection::vec(0u8..3, 1..4).prop_map(Motion::Turn),
            prop::sample::select(vec![-2i8, -1, 1, 2, 3, 7, 11]).prop_map(Motion::Scale),
            prop::collection::vec(prop::array::uniform6(-3i8..4), 1..8).prop_map(Motion::Points),
        ];
        (scene(geom::brush, 6, 4), (0u8..3, any::<u16>()), motion)
            .prop_map(|(mut s, (coll, phong), m)| {
                show_all(&mut s, coll, if phong % 4 == 0 { phong >> 2 } else { 0 });
                // only origins that are three numbers move
                for e in &mut s.ents {
                    let ok = e.get("origin").map_or(true, |o| {
                        o.split(' ').count() == 3 && o.split(' ').all(|c| c.parse::<f32>().is_ok())
                    });
                    if !ok {
                        e.props.retain(|p| p.0 != "origin");
                    }
                }
                for c in &mut s.cfg.fgd.classes {
                    c.props.retain(|p| p.name != "origin");
                }
                let far = matches!(m, Motion::Move(d) if d.iter().any(|c| c.abs() > 16000));
                if far || matches!(m, Motion::Scale(_)) {
                    for e in &mut s.ents {
                        let mut i = 0;
                        while i < e.brushes.len() {
                            let g = move_brush(&e.brushes[i].geo, &m, &mut 0);
                            let exact = e.brushes[i].geo.faces.iter().zip(&g.faces).all(|(a, b)| {
                                a.pts.iter().zip(&b.pts).all(|(p, q)| m.at0(geom::d3(*p)) == geom::d3(*q))
                            });
                            if exact && g.well_conditioned() {
                                i += 1;
                            } else {
                                e.brushes.remove(i);
                            }
                        }
                    }
                }
                Moved { s, m }
            })
            .boxed()
    }
    fn check(c: &Moved, obs: &mut Obs) -> Check {
        let (base, m) = (&c.s.ents, &c.m);
        let mut k = 0;
        let ents: Vec<Ent> = base
            .iter()
            .map(|e| {
                let mut e = e.clone();
                for p in &mut e.props {
                    if p.0 == "origin" {
                        let v: Vec<f64> = p.1.split(' ').map(|s| s.parse().unwrap()).collect();
                        let q = m.at0([v[0], v[1], v[2]]);
                        p.1 = format!("{} {} {}", q[0], q[1], q[2]);
                    }
                }
                for b in &mut e.brushes {
                    b.geo = move_brush(&b.geo, m, &mut k);
                    if let Motion::Turn(_) = m {
                        for f in &mut b.faces {
                            if let Align::Valve { u, v, .. } = &mut f.align {
                                for a in [u, v] {
                                    *a = m.dir(geom::d3(*a)).map(|x| x as f32 + 0.0);
                                }
                            }
                        }
                    }
                }
                e
            })
            .collect();
        obs.label(&format!("motion: {}", format!("{m:?}").split('(').next().unwrap()));
        obs.label_if(ents.iter().flat_map(|e| &e.brushes).any(|b| b.geo.max_coord() > 65536.0), "brush beyond 65536 units");
        obs.nontrivial(base.iter().flat_map(|e| &e.brushes).any(|b| b.geo.kind != "box" && b.geo.kind != "fallback box"));
        let want = expected(base).expect("generator: ill-formed groups");
        let t0 = sut::run_ok(&text(base), &c.s.cfg)?;
        let t1 = sut::run_ok(&text(&ents), &c.s.cfg)?;
        let (mut p0, mut p1) = (vec![], vec![]);
        zip(&want, &t0, base, &mut p0, None).map_err(|m| format!("(structure) {m}"))?;
        zip(&want, &t1, &ents, &mut p1, None).map_err(|m| format!("(structure, moved) {m}"))?;
        let mut abs: BTreeMap<usize, (D3, D3, f64)> = BTreeMap::new();
        for ((i, a, parent), (_, b, _)) in p0.into_iter().zip(p1) {
            let e = &base[i];
            let at = |s: String| format!("entity {i} ({}), {m:?}: {s}", e.class());
            let (ba, bb, bx) = parent.map_or(([0.0; 3], [0.0; 3], 0.0), |p: usize| abs[&p]);
            let (pa, pb) = (geom::add(ba, geom::d3(a.origin)), geom::add(bb, geom::d3(b.origin)));
            let ext = bx.max(extent(e)).max(extent(&ents[i])).max(extent(e) * m.factor());
            abs.insert(i, (pa, pb, ext));
            let want = if placed(e) { m.at(pa) } else { pa };
            if !close(want, pb, 2.0 * ext) {
                return Err(at(format!("at {pb:?} instead of {want:?}")));
            }
            if actor(a).etype != actor(b).etype || children(a).len() != children(b).len() {
                return Err(at("another actor".into()));
            }
            for (x, y) in children(a).iter().zip(children(b)) {
                if matches!(x.data, Data::Actor(..)) {
                    continue;
                }
                let want = if placed(e) { m.at(geom::d3(x.origin)) } else { geom::d3(x.origin) };
                if !close(want, geom::d3(y.origin), 2.0 * ext) {
                    return Err(at(format!("geometry at {:?} instead of {want:?}", y.origin)));
                }
                match (&x.data, &y.data) {
                    (Data::Visual(_), Data::Visual(_)) => {}
                    (Data::Coll(x), Data::Coll(y)) => match (x, y) {
                        (Coll::Convex(x), Coll::Convex(y)) => {
                            if x.len() != y.len() {
                                return Err(at("other convex shapes".into()));
                            }
                            for ((cx, px), (cy, py)) in x.iter().zip(y) {
                                if !px.is_empty() && !close(m.at(geom::d3(*cx)), geom::d3(*cy), 2.0 * ext) {
                                    return Err(at(format!("shape centre {cy:?} from {cx:?}")));
                                }
                                same_outline(px, &[], py, &[], m).map_err(|s| at(format!("convex shape: {s}")))?;
                            }
                        }
                        (Coll::Concave(x), Coll::Concave(y)) => {
                            if x.len() != y.len() {
                                return Err(at("other concave shapes".into()));
                            }
                            for ((cx, vx, ix), (cy, vy, iy)) in x.iter().zip(y) {
                                if !close(m.at(geom::d3(*cx)), geom::d3(*cy), 2.0 * ext) {
                                    return Err(at(format!("concave centre {cy:?} from {cx:?}")));
                                }
                                same_outline(vx, ix, vy, iy, m).map_err(|s| at(format!("concave shape: {s}")))?;
                            }
                        }
                        _ => return Err(at("other collision".into())),
                    },
                    _ => return Err(at("other geometry nodes".into())),
                }
            }
            // faces
            let (s0, s1) = (surf_by_texture(a), surf_by_texture(b));
            if s0.keys().collect::<Vec<_>>() != s1.keys().collect::<Vec<_>>() {
                return Err(at(format!("surfaces {:?} instead of {:?}", s1.keys(), s0.keys())));
            }
            let phong = e.get("_phong") == Some("1");
            for (bi, br) in e.brushes.iter().enumerate() {
                for (fi, f) in br.faces.iter().enumerate() {
                    let t = f.tex.to_lowercase();
                    let (x, y) = match (s0.get(&Some(t.as_str())), s1.get(&Some(t.as_str()))) {
                        (Some(x), Some(y)) => (x, y),
                        _ => continue,
                    };
                    let at = |s: String| at(format!("brush {bi} ({}), face {fi}: {s}", br.geo.kind));
                    same_outline(&x.verts, &x.indices, &y.verts, &y.indices, m).map_err(at)?;
                    if !phong {
                        for (n, w) in [(&x.normals, 0), (&y.normals, 1)] {
                            if n.iter().any(|v| geom::dist(geom::d3(*v), geom::d3(n[0])) > 2e-4) {
                                return Err(at(format!("normals of one face differ (map {w})")));
                            }
                        }
                        if let (Some(n0), Some(n1)) = (x.normals.first(), y.normals.first()) {
                            let w = m.dir(geom::d3(*n0));
                            if geom::dist(w, geom::d3(*n1)) > 4e-4 {
                                return Err(at(format!("normal {n1:?} instead of {w:?}")));
                            }
                        }
                    }
                    let valve = matches!(f.align, Align::Valve { .. });
                    let g = &br.geo.faces[fi];
                    // standard alignment follows the normal's main axis
                    let mut l = g.n.map(f64::abs);
                    l.sort_by(|a, b| b.partial_cmp(a).unwrap());
                    let clear = l[0] - l[1] > 1e-4;
                    let keeps = match m {
                        Motion::Turn(_) => valve,
                        _ => valve || clear,
                    };
                    if keeps {
                        if let (Some((d0, _)), Some((d1, _))) = (x.tangents.first(), y.tangents.first()) {
                            let w = m.dir(geom::d3(*d0));
                            if geom::dist(w, geom::d3(*d1)) > 1e-3 * (1.0 + geom::len(w)) {
                                return Err(at(format!("tangent {d1:?} instead of {w:?}")));
                            }
                        }
                    }
                    // texture coordinates belong to the place
                    let stays = keeps && matches!(m, Motion::Turn(_) | Motion::Points(_));
                    if let (true, Some(u0), Some(u1)) = (stays, &x.uvs, &y.uvs) {
                        obs.label("texture coordinates compared");
                        let (tw, th) = tex_size(&t);
                        let (lu, lv) = match &f.align {
                            Align::Valve { u, v, .. } => (geom::len(geom::d3(*u)), geom::len(geom::d3(*v))),
                            _ => (1.5, 1.5),
                        };
                        let gain = (lu / (tw as f64 * f.scale[0].abs() as f64))
                            .max(lv / (th as f64 * f.scale[1].abs() as f64))
                            .max(if valve { 0.0 } else { 1.5 / (tw.min(th) as f64 * f.scale[0].abs().min(f.scale[1].abs()) as f64) });
                        for (p, uv) in y.verts.iter().zip(u1) {
                            let p = geom::d3(*p);
                            let near = (0..x.verts.len())
                                .min_by(|a, b| {
                                    let d = |i: usize| geom::dist(m.at(geom::d3(x.verts[i])), p);
                                    d(*a).partial_cmp(&d(*b)).unwrap()
                                })
                                .unwrap();
                            let size = p.iter().fold(1.0f64, |a, c| a.max(c.abs()));
                            let tol = gain * (4.0 * geom::tol_at(p) + 1e-5 * size) + 1e-4;
                            for d in 0..2 {
                                if (u0[near][d] as f64 - uv[d] as f64).abs() > tol {
                                    return Err(at(format!("texture coordinate {uv:?} at {p:?} instead of {:?}", u0[near])));
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C32

/// A scene, and the same scene among settings that nothing refers to.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Unused {
    pub s: Scene,
    pub v: Scene,
}
/// A name like one in use, but another one, not only in letter case if it is a texture's.
fn unlike(used: &[String], how: u8, pick: u16, case: bool) -> Option<String> {
    let base = if used.is_empty() { "stone".to_string() } else { used[pick as usize % used.len()].clone() };
    let half: String = base.chars().take(base.chars().count() / 2).collect();
    let rest: String = base.chars().skip(1).collect();
    let tail: String = base.chars().skip(2).collect();
    let n = match how % 20 {
        0 => half,
        12 => rest,
        13 => tail,
        14 => format!("+0{tail}"),
        15 => format!("+0{base}"),
        16 => ["*", "{", "+", "!", "#"][pick as usize / 7 % 5].to_string() + &base,
        17 => base.rsplit('/').next().unwrap_or("").to_string(),
        18 => format!("textures/{base}"),
        19 => format!("{base}.{}", ["png", "tga", "mip"][pick as usize / 7 % 3]),
        10 => base.to_uppercase(),
        11 => base[..base.chars().next().map_or(0, |c| c.len_utf8())].to_uppercase() + &base[base.chars().next().map_or(0, |c| c.len_utf8())..],
        1 => format!("{base}x"),
        2 => format!("{base} "),
        3 => format!("x{base}"),
        4 => base.chars().rev().collect(),
        5 => format!("{base}0"),
        6 => String::new(),
        7 => "*".into(),
        8 => format!("unused_{pick}"),
        _ => format!("{base}/{base}"),
    };
    if used.iter().any(|u| if case { *u == n } else { u.to_lowercase() == n.to_lowercase() }) {
        None
    } else {
        Some(n)
    }
}
/// Reorders without exchanging elements of the same name.
fn shuffle<T>(v: &mut Vec<T>, key: &[u16], name: impl Fn(&T) -> String) {
    if key.is_empty() {
        return;
    }
    let names: Vec<String> = v.iter().map(&name).collect();
    let mut keyed: Vec<(u16, usize, T)> = vec![];
    for (i, x) in v.drain(..).enumerate() {
        let first = names.iter().position(|n| *n == names[i]).unwrap();
        keyed.push((key[first % key.len()].wrapping_mul(first as u16 | 1), i, x));
    }
    keyed.sort_by_key(|k| (k.0, k.1));
    v.extend(keyed.into_iter().map(|k| k.2));
}
const STRANGE_KEYS: [&str; 22] = [
    "zz", "_phong_", "_phongangle", "Origin", "ORIGIN", "classname2", "Classname", "_tb_layer", "_tb_groups", "tb_group", "_tb_", "_color",
    "angles", "phong", "_Phong", "origin2", " origin", "texture", "{", "}", "wad", "mapversion",
];
#[derive(Clone, Debug)]
enum Noise {
    Class(u8, u16, ClassDef, u16),
    Fgd(u8, u16, FgdClass, u16),
    Texture(u8, u16, u32, u16),
    Brush(u8, u16, u16),
    Plane(u8, u16, u16),
    Layer(u8, LayerDef, u16),
    Key(u16, u8, String, u16),
    Order(Vec<u16>),
    Text(String, u8),
    Repeat(u16),
}
fn noise() -> BoxedStrategy<Noise> {
    let i = any::<u16>;
    let how = any::<u8>;
    prop_oneof![
        2 => (how(), i(), class_s(&POOL), i()).prop_map(|(a, b, c, d)| Noise::Class(a, b, c, d)),
        2 => (how(), i(), fgd_class_s(&POOL), i()).prop_map(|(a, b, c, d)| Noise::Fgd(a, b, c, d)),
        2 => (how(), i(), 1u32..300, i()).prop_map(|(a, b, c, d)| Noise::Texture(a, b, c, d)),
        2 => (how(), i(), i()).prop_map(|(a, b, c)| Noise::Brush(a, b, c)),
        2 => (how(), i(), i()).prop_map(|(a, b, c)| Noise::Plane(a, b, c)),
        1 => (how(), layer_s(), i()).prop_map(|(a, b, c)| Noise::Layer(a, b, c)),
        3 => (i(), how(), prop_oneof![2 => word_s(), 1 => prop::sample::select(vec!["1", "0", "worldspawn", "64 64 64", "*water0"]).prop_map(|s| s.to_string())], i())
            .prop_map(|(a, b, c, d)| Noise::Key(a, b, c, d)),
        2 => prop::collection::vec(i(), 1..9).prop_map(Noise::Order),
        2 => (word_s(), how()).prop_map(|(a, b)| Noise::Text(a, b)),
        1 => i().prop_map(Noise::Repeat),
    ]
    .boxed()
}
fn insert<T>(v: &mut Vec<T>, at: u16, x: T) {
    let at = at as usize % (v.len() + 1);
    v.insert(at, x);
}
fn disturb(s: &Scene, noise: Vec<Noise>) -> Scene {
    let mut v = s.clone();
    let classes: Vec<String> = s.ents.iter().map(|e| e.class().to_string()).collect();
    let mut texs: Vec<String> = vec![];
    for f in s.ents.iter().flat_map(|e| &e.brushes).flat_map(|b| &b.faces) {
        let t = f.tex.to_lowercase();
        if !texs.contains(&t) {
            texs.push(t);
        }
    }
    for n in noise {
        match n {
            Noise::Class(how, pick, mut c, at) => {
                if let Some(name) = unlike(&classes, how, pick, true) {
                    c.name = name;
                    insert(&mut v.cfg.classes, at, c);
                }
            }
            Noise::Fgd(how, pick, mut c, at) => {
                if let Some(name) = unlike(&classes, how, pick, true) {
                    c.name = name;
                    insert(&mut v.cfg.fgd.classes, at, c);
                }
            }
            Noise::Texture(how, pick, size, at) => {
                if let Some(name) = unlike(&texs, how, pick, false) {
                    if !v.cfg.textures.iter().any(|t| t.0 == name) {
                        insert(&mut v.cfg.textures, at, (name, size, 301 - size));
                    }
                }
            }
            Noise::Brush(how, pick, at) => {
                if let Some(name) = unlike(&texs, how, pick, false) {
                    insert(&mut v.cfg.black_brush, at, name);
                }
            }
            Noise::Plane(how, pick, at) => {
                if let Some(name) = unlike(&texs, how, pick, false) {
                    insert(&mut v.cfg.black_plane, at, name);
                }
            }
            Noise::Layer(how, mut l, at) => {
                l.texture = ["brick", "", "*water", "*water1", "water0", "*lava1", "*slime0 ", "wall", "sky1", "*"][how as usize % 10].into();
                insert(&mut v.cfg.layers, at, l);
            }
            Noise::Key(e, k, val, at) => {
                let e = e as usize % v.ents.len();
                let e = &mut v.ents[e];
                let props: Vec<&String> = s.cfg.fgd.classes.iter().filter(|c| c.name == e.class()).flat_map(|c| &c.props).map(|p| &p.name).collect();
                let key = if k & 1 == 1 && !props.is_empty() {
                    near_key(props[at as usize % props.len()], k as u16 / 2)
                } else {
                    STRANGE_KEYS[k as usize / 2 % STRANGE_KEYS.len()].to_string()
                };
                let defined = s.cfg.fgd.classes.iter().any(|c| c.name == e.class() && c.props.iter().any(|p| p.name == key));
                if !defined && e.get(&key).is_none() && !val.contains('"') {
                    insert(&mut e.props, at, (key, val));
                }
            }
            Noise::Order(k) => {
                shuffle(&mut v.cfg.classes, &k, |c| c.name.clone());
                shuffle(&mut v.cfg.fgd.classes, &k, |c| c.name.clone());
                shuffle(&mut v.cfg.textures, &k, |t| t.0.clone());
                shuffle(&mut v.cfg.layers, &k, |l| l.texture.clone());
                shuffle(&mut v.cfg.black_brush, &k, |t| t.clone());
                shuffle(&mut v.cfg.black_plane, &k, |t| t.clone());
                for c in &mut v.cfg.fgd.classes {
                    shuffle(&mut c.props, &k, |p| p.name.clone());
                }
            }
            // what only the FGD text shows
            Noise::Text(t, k) => {
                v.cfg.fgd.name = t.clone();
                v.cfg.fgd.includes.push(t.clone());
                for (i, c) in v.cfg.fgd.classes.iter_mut().enumerate() {
                    if (k as usize + i) % 3 == 0 {
                        c.kind = k % 3;
                        c.desc = t.clone();
                        c.meta.push(FgdMeta::Base(vec![t.clone(), POOL[k as usize % POOL.len()].into()]));
                        c.meta.push(FgdMeta::Color([0.5, 0.25, 1.0]));
                    }
                    for p in &mut c.props {
                        p.short = t.clone();
                        p.long = format!("{t} {k}");
                        match &mut p.data {
                            FgdData::Choices(c, _) => c.push((t.clone(), ChoiceVal::I(k as i32))),
                            FgdData::Flags(f, _) if f.len() < 31 => f.push(t.clone()),
                            _ => (),
                        }
                    }
                }
            }
            Noise::Repeat(i) => {
                // saying the same again
                for l in [&mut v.cfg.black_brush, &mut v.cfg.black_plane] {
                    if !l.is_empty() {
                        let x = l[i as usize % l.len()].clone();
                        insert(l, i, x);
                    }
                }
                if !v.cfg.classes.is_empty() {
                    let c = v.cfg.classes[i as usize % v.cfg.classes.len()].clone();
                    if let Some(first) = v.cfg.classes.iter().find(|d| d.name == c.name) {
                        let first = first.clone();
                        v.cfg.classes.push(first);
                    }
                }
            }
        }
    }
    v
}

pub struct C32;
impl Prop for C32 {
    type Case = Unused;
    const ID: &'static str = "C32";
    const CASES: (u64, u64) = (48_000, 720_000);
    const RULE: &'static str = "scenes as C20, and the same scene with 1-8 settings that nothing refers to: game-data and FGD classes, texture sizes and blacklisted textures of other (mostly similar) names, layers for other textures, undefined entity properties, FGD descriptions, base classes and flag or choice labels, repeated blacklist entries and later definitions of a class defined before, and definitions, properties and lists in another order; the trees must agree in every bit; non-trivial: the settings differ and the scene has a texture with a size and a definition in use";
    fn strategy(_: bool) -> BoxedStrategy<Unused> {
        (
            scene(geom::plain, 7, 4),
            prop::collection::vec(any::<u8>(), 0..8),
            prop::collection::vec(layer_s(), 0..4),
            (0u8..3, any::<u16>(), any::<u16>()),
            prop::collection::vec(noise(), 1..9),
        )
            .prop_map(|(mut s, names, layers, (coll, show, phong), noise)| {
                recolor(&mut s.ents, &mut s.cfg, &names);
                s.cfg.layers = layers;
                if show % 4 != 0 {
                    show_all(&mut s, coll, phong);
                }
                let v = disturb(&s, noise);
                Unused { s, v }
            })
            .boxed()
    }
    fn check(c: &Unused, obs: &mut Obs) -> Check {
        let used = c.s.ents.iter().any(|e| c.s.cfg.classes.iter().any(|d| d.name == e.class()));
        obs.nontrivial(c.s != c.v && used && !c.s.cfg.textures.is_empty());
        obs.label_if(c.s.cfg.classes != c.v.cfg.classes, "game-data classes added or reordered");
        obs.label_if(c.s.cfg.fgd != c.v.cfg.fgd, "FGD added, reordered or described differently");
        obs.label_if(c.s.cfg.textures != c.v.cfg.textures, "texture sizes added or reordered");
        obs.label_if(c.s.cfg.black_brush != c.v.cfg.black_brush || c.s.cfg.black_plane != c.v.cfg.black_plane, "blacklists added to or reordered");
        obs.label_if(c.s.cfg.layers != c.v.cfg.layers, "layers added or reordered");
        obs.label_if(c.s.ents != c.v.ents, "undefined entity properties added");
        let a = format!("{:?}", sut::run_ok(&c.s.text(), &c.s.cfg)?);
        let b = format!("{:?}", sut::run_ok(&c.v.text(), &c.v.cfg)?);
        if a != b {
            return Err(format!("the tree changes: {}", first_difference(&a, &b)));
        }
        Ok(())
    }
}
