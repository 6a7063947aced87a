//! Whole scenes: entities with groups, typed properties and game data, and the
//! reference model of the tree they make.
use crate::geom::{self, GBrush, D3};
use crate::mapdoc::*;
use crate::sut::{ChoiceVal, Cfg, ClassDef, EType, FgdClass, FgdData, FgdDoc, FgdProp, PVal, Pat, V3};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scene {
    pub ents: Vec<Ent>,
    pub cfg: Cfg,
}
impl Scene {
    pub fn text(&self) -> String {
        text(&self.ents)
    }
}

/// Reference tree: indices into the entity list.
#[derive(Clone, Debug, PartialEq)]
pub struct Tree {
    pub ent: usize,
    pub kids: Vec<Tree>,
}

/// worldspawn first, then file order.
pub fn tree_order(ents: &[Ent]) -> Vec<usize> {
    let w = ents.iter().position(|e| e.class() == "worldspawn");
    w.into_iter().chain((0..ents.len()).filter(|i| Some(*i) != w)).collect()
}

/// The expected tree, or None when some entity is not reachable (dangling or
/// cyclic groups: outside the domain).
pub fn expected(ents: &[Ent]) -> Option<Vec<Tree>> {
    let order = tree_order(ents);
    let mut kids: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut top = vec![];
    for (pos, i) in order.iter().enumerate() {
        match ents[*i].get("_tb_group") {
            Some(g) if pos > 0 => {
                let parent = order.iter().find(|j| ents[**j].get("_tb_id") == Some(g))?;
                kids.entry(*parent).or_default().push(*i);
            }
            _ => top.push(*i),
        }
    }
    fn build(i: usize, kids: &BTreeMap<usize, Vec<usize>>, n: &mut usize) -> Tree {
        *n += 1;
        Tree {
            ent: i,
            kids: kids.get(&i).map_or(vec![], |k| k.iter().map(|j| build(*j, kids, n)).collect()),
        }
    }
    let mut n = 0;
    let t: Vec<Tree> = top.iter().map(|i| build(*i, &kids, &mut n)).collect();
    if n == ents.len() {
        Some(t)
    } else {
        None
    }
}

pub const POOL: [&str; 8] = [
    "worldspawn",
    "func_detail",
    "func_group",
    "light",
    "info_player_start",
    "trigger_multiple",
    "door",
    "Func_Detail",
];
pub const KEYS: [&str; 15] = [
    "health", "speed", "target", "targetname", "message", "angle", "color", "_light", "spawnflags",
    "origin", "wait time", "Health", "classname",
    "the_name_of_a_property_that_somebody_has_spelled_out_in_rather_many_words_health",
    "the_name_of_a_property_that_somebody_has_spelled_out_in_rather_many_words_speed_and_then_went_on_and_on_until_the_line_was_full_and_the_next_one_and_the_one_after_that_nearly_were_as_well_and_nobody_minded_at_all_it_seems",
];

#[derive(Clone, Debug)]
pub struct ValueRecipe {
    i: i32,
    f: f32,
    v: V3,
    s: String,
    mode: u8,
}
fn f32_s() -> BoxedStrategy<f32> {
    prop_oneof![
        3 => (-1000i32..1000).prop_map(|v| v as f32),
        3 => dy(-100000..100000, 64.0),
        1 => prop::sample::select(vec![0.0f32, -0.0, 0.1, 1e-7, 123456790.0, 3.4e38, -1.5e-30, 16777216.0]),
    ]
    .boxed()
}
fn i32_s() -> BoxedStrategy<i32> {
    prop_oneof![3 => -100i32..1000, 1 => any::<i32>(), 1 => prop::sample::select(vec![i32::MIN, i32::MAX, 0, -1])].boxed()
}
pub fn word_s() -> BoxedStrategy<String> {
    prop_oneof![
        60 => "[a-z][a-z0-9_]{0,8}",
        20 => "[ -!#-~]{0,20}",
        1 => long_s(),
        20 => prop::sample::select(vec!["", "true", "über straße", "a  b", "{", "}", "( 1 2 3 )", "// no comment", "-", "x\\y", "日本", "1 2 3", "5"])
            .prop_map(|s| s.to_string()),
    ]
    .boxed()
}
pub fn value_s() -> BoxedStrategy<ValueRecipe> {
    (i32_s(), f32_s(), prop::array::uniform3(f32_s()), word_s(), 0u8..16)
        .prop_map(|(i, f, v, s, mode)| ValueRecipe { i, f, v, s, mode })
        .boxed()
}
impl ValueRecipe {
    pub fn text(&self, d: Option<&FgdData>) -> String {
        let v = self.v;
        let vec = format!("{} {} {}", v[0], v[1], v[2]);
        match self.mode {
            12 => return self.s.clone(),
            13 => return format!("{}", self.i),
            14 => return format!("{} {}", v[0], v[1]),
            15 => return format!("{}x", self.i),
            _ => {}
        }
        match d {
            Some(FgdData::Integer(_) | FgdData::Choices(..) | FgdData::Flags(..)) => match self.mode {
                8 => format!("{}", self.f),
                9 => format!("{}", self.i as i64 * 1_000_000),
                10 => format!("0{}", (self.i as i64).abs() % 1000),
                _ => format!("{}", self.i),
            },
            Some(FgdData::Float(_)) => match self.mode {
                8 => format!("{}", self.i),
                9 => format!("{:e}", self.f),
                _ => format!("{}", self.f),
            },
            Some(FgdData::Vector3(_)) => match self.mode {
                8 => format!("{} x {}", v[0], v[1]),
                _ => vec,
            },
            Some(FgdData::Color(_)) => match self.mode {
                8 => format!("red {} {}", v[0], v[1]),
                9..=11 => vec,
                _ => format!("{} {} {}", self.i as u8, v[0].abs() as u8, v[1].abs() as u8),
            },
            _ => self.s.clone(),
        }
    }
}

/// What a property of this kind should come out as.
pub fn read_prop(d: &FgdData, text: Option<&str>) -> PVal {
    let vec = |s: &str| -> Option<V3> {
        let c: Vec<&str> = s.split(' ').collect();
        if c.len() < 3 {
            return None;
        }
        let p = |i: usize| c[i].parse::<f32>().ok();
        Some([p(0)?, p(1)?, p(2)?])
    };
    match d {
        FgdData::Integer(x) => PVal::Integer(text.and_then(|t| t.parse().ok()).unwrap_or(*x)),
        FgdData::Float(x) => PVal::Float(text.and_then(|t| t.parse().ok()).unwrap_or(*x)),
        FgdData::Vector3(x) => PVal::Vector3(text.and_then(vec).unwrap_or(*x)),
        FgdData::String(x) => PVal::String(text.map(|t| t.to_string()).unwrap_or_else(|| x.clone())),
        FgdData::Color(x) => PVal::Color(text.and_then(vec).map(|v| v.map(|c| c / 255.0)).unwrap_or(*x)),
        FgdData::Choices(_, x) => PVal::Choices(text.and_then(|t| t.parse().ok()).unwrap_or(*x)),
        FgdData::Flags(_, x) => PVal::Flags(text.and_then(|t| t.parse().ok()).unwrap_or(*x)),
        FgdData::TargetSource => PVal::TargetSource,
        FgdData::TargetDestination => PVal::TargetDestination,
    }
}
/// A text whose reading as this kind is not settled by the property statement.
pub fn ambiguous(d: &FgdData, t: &str) -> bool {
    match d {
        FgdData::Integer(_) | FgdData::Choices(..) | FgdData::Flags(..) | FgdData::Float(_) => {
            t.trim() != t || {
                let l = t.to_lowercase();
                l.contains("inf") || l.contains("nan")
            }
        }
        FgdData::Vector3(_) | FgdData::Color(_) => {
            let l = t.to_lowercase();
            t.split_whitespace().count() != t.split(' ').count()
                || t.split(' ').count() > 3
                || l.contains("inf")
                || l.contains("nan")
        }
        _ => false,
    }
}
pub fn same_val(a: &PVal, b: &PVal) -> bool {
    match (a, b) {
        (PVal::Color(x), PVal::Color(y)) => {
            (0..3).all(|i| x[i] == y[i] || (x[i] - y[i]).abs() <= 1e-6 * x[i].abs().max(1e-30) + 1e-9)
        }
        _ => a == b,
    }
}
pub fn expected_props(e: &Ent, fgd: &FgdDoc) -> BTreeMap<String, PVal> {
    let mut out = BTreeMap::new();
    let c = match fgd.classes.iter().find(|c| c.name == e.class()) {
        Some(c) => c,
        None => return out,
    };
    for k in ["_tb_id", "_tb_group"] {
        if let Some(v) = e.get(k).and_then(|v| v.parse().ok()) {
            out.insert(k.to_string(), PVal::Integer(v));
        }
    }
    for k in ["_tb_type", "_tb_name"] {
        if let Some(v) = e.get(k) {
            out.insert(k.to_string(), PVal::String(v.into()));
        }
    }
    for p in &c.props {
        out.insert(p.name.clone(), read_prop(&p.data, e.get(&p.name)));
    }
    out
}

pub fn fgd_data_s() -> BoxedStrategy<FgdData> {
    let choice = || {
        prop_oneof![
            i32_s().prop_map(ChoiceVal::I),
            f32_s().prop_map(ChoiceVal::F),
            "[a-z]{1,6}".prop_map(ChoiceVal::S),
        ]
    };
    prop_oneof![
        i32_s().prop_map(FgdData::Integer),
        f32_s().prop_map(FgdData::Float),
        prop::array::uniform3(f32_s()).prop_map(FgdData::Vector3),
        word_s().prop_map(FgdData::String),
        prop::array::uniform3(dy(0..1025, 1024.0)).prop_map(FgdData::Color),
        (prop::collection::vec(("[a-z ]{1,8}", choice()), 1..5), 0i32..16).prop_map(|(c, d)| {
            let d = d % c.len() as i32;
            FgdData::Choices(c, d)
        }),
        (prop::collection::vec("[a-z ]{0,8}", 0..32), any::<i32>()).prop_map(|(f, d)| FgdData::Flags(f, d)),
        Just(FgdData::TargetSource),
        Just(FgdData::TargetDestination),
    ]
    .boxed()
}
pub fn fgd_class_s(names: &'static [&'static str]) -> BoxedStrategy<FgdClass> {
    (
        0u8..3,
        prop::sample::select(names.to_vec()),
        prop::collection::vec((prop::sample::select(KEYS.to_vec()), fgd_data_s()), 0..6),
    )
        .prop_map(|(kind, name, props)| {
            let mut out: Vec<FgdProp> = vec![];
            for (k, data) in props {
                if !out.iter().any(|p| p.name == k) {
                    out.push(FgdProp { name: k.into(), short: "s".into(), long: "l".into(), data });
                }
            }
            FgdClass { kind, meta: vec![], name: name.into(), desc: "d".into(), props: out }
        })
        .boxed()
}
pub fn etype_s() -> BoxedStrategy<EType> {
    prop_oneof![
        Just(EType::Placeholder),
        "[A-Z][a-z]{0,5}".prop_map(EType::Class),
        "res://[a-z]{1,5}".prop_map(EType::Prefab),
    ]
    .boxed()
}
pub fn script_s() -> BoxedStrategy<Option<String>> {
    prop_oneof![Just(None), "[a-z/.]{0,8}".prop_map(Some)].boxed()
}
pub fn class_s(names: &'static [&'static str]) -> BoxedStrategy<ClassDef> {
    (
        prop::sample::select(names.to_vec()),
        prop_oneof![1 => Just(None), 3 => (any::<bool>(), 0u8..3).prop_map(Some)],
        etype_s(),
        script_s(),
        prop_oneof![Just(Pat::Properties), Just(Pat::Dictionary), Just(Pat::Metadata)],
    )
        .prop_map(|(name, brush, etype, script, pat)| ClassDef { name: name.into(), brush, etype, script, pat })
        .boxed()
}

#[derive(Clone, Debug)]
struct EntRecipe {
    class: u8,
    unique: bool,
    brushes: Vec<Brush>,
    origin: Option<String>,
    values: Vec<(u16, ValueRecipe)>,
    /// parent selector; 0 mod something: none
    parent: u16,
    key: u16,
    dup: u8,
    tb: u8,
}

pub fn origin_s() -> BoxedStrategy<Option<String>> {
    let n = || (-2000i32..2000).prop_map(|v| format!("{}", v as f32 / 4.0));
    prop_oneof![
        4 => Just(None),
        5 => (n(), n(), n()).prop_map(|(a, b, c)| Some(format!("{a} {b} {c}"))),
        1 => (n(), n()).prop_map(|(a, b)| Some(format!("{a} {b}"))),
        1 => (n(), n(), 0u8..4).prop_map(|(a, b, k)| Some(match k {
            0 => format!("x {a} {b}"),
            1 => format!("{a} x {b}"),
            2 => format!("{a} {b} y"),
            _ => a,
        })),
        1 => Just(Some(String::new())),
        // other spellings of numbers, and texts that are no numbers
        1 => prop::array::uniform3(prop::sample::select(ODD_NUMBERS.to_vec()))
            .prop_map(|c| Some(c.join(" "))),
    ]
    .boxed()
}
const ODD_NUMBERS: [&str; 22] = [
    "1e2", "+5", ".5", "5.", "-0", "-.25", "1E1", "007", "2.5e-1", "-1e+2", "1024.0625", "0", "12.50", // numbers
    "0x10", "1_000", "1,5", "--1", "e", "1f", "-", "ten", "1.2.3", // none
];

/// Another key than this one, though easily taken for it.
pub fn near_key(key: &str, m: u16) -> String {
    let cap = |s: &str| s[..1].to_uppercase() + &s[1..];
    match m % 8 {
        0 => key.to_uppercase(),
        1 => cap(&key.to_lowercase()),
        2 => cap(&key.to_uppercase().to_lowercase()).chars().rev().collect(),
        3 => format!("{key}_"),
        4 => format!("_{key}"),
        5 => format!("{key} "),
        6 => key[..key.len() - 1].to_string(),
        _ => format!("{key}{}", m % 3),
    }
}

/// A well-formed scene without worldspawn layers; every face has its own texture.
pub fn scene(geo: fn() -> BoxedStrategy<GBrush>, max_ents: usize, grouping: u16) -> BoxedStrategy<Scene> {
    let ent = (
        (any::<u8>(), any::<bool>()),
        prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(brush_with(geo()), 1..4)],
        origin_s(),
        prop::collection::vec((any::<u16>(), value_s()), 0..6),
        (any::<u16>(), any::<u16>(), any::<u8>(), any::<u8>()),
    )
        .prop_map(|((class, unique), brushes, origin, values, (parent, key, dup, tb))| EntRecipe {
            class,
            unique,
            brushes,
            origin,
            values,
            parent,
            key,
            dup,
            tb,
        });
    (
        prop::collection::vec(ent, 1..=max_ents),
        prop::collection::vec(class_s(&POOL), 0..10),
        prop::collection::vec(fgd_class_s(&POOL), 0..8),
        any::<u8>(),
        1i32..1000,
    )
        .prop_map(move |(recipes, classes, fgd, style, idbase)| {
            let fgd = FgdDoc { name: "g".into(), includes: vec![], classes: fgd };
            let n = recipes.len();
            let mut ents: Vec<(u16, Ent)> = vec![];
            let mut has_kids = vec![false; n];
            let mut parents = vec![None; n];
            for i in 1..n {
                // hierarchy: parents among earlier recipes, file order by key
                if recipes[i].parent % 8 < grouping {
                    let p = (recipes[i].parent as usize / 8) % i;
                    parents[i] = Some(p);
                    has_kids[p] = true;
                }
            }
            // ids of all sizes, 0 and negative ones among them, as long as they differ
            let id = |i: usize| match idbase % 11 {
                0 => format!("{}", 3 * i),
                1 => format!("{}", idbase as i64 * 123_456_789_012 + i as i64),
                2 => format!("{}", 2 - 2 * i as i32),
                5 => format!("{}", i32::MAX - i as i32),
                6 => format!("{}", if i % 2 == 0 { i32::MIN as i64 + i as i64 } else { i32::MAX as i64 + i as i64 }),
                3 => format!("group {}", (b'a' + i as u8 % 26) as char),
                4 => format!("{}_{i}", "of_the_castle".repeat(idbase as usize % 40)),
                _ => format!("{}", idbase + 3 * i as i32),
            };
            for (i, r) in recipes.iter().enumerate() {
                let class = if i == 0 {
                    "worldspawn".to_string()
                } else if r.unique {
                    // names of all forms
                    match r.tb % 16 {
                        1 => format!("thing {i} of {n}"),
                        2 => format!(" thing_{i} "),
                        3 => format!("größe_{i}_日本"),
                        4 => format!("Func.{i}/a;b=c\\"),
                        5 => format!("{{thing_{i}"),
                        6 => format!("}} ( {i} ) [ 0 0 0 0 ]"),
                        7 => format!("//thing_{i}"),
                        8 => format!("{i}"),
                        9 => format!("worldspawn_{i}"),
                        10 => format!("WORLDSPAWN {i}"),
                        11 => format!("{}{i}", "long_name_".repeat(40)),
                        _ => format!("thing_{i}"),
                    }
                } else {
                    POOL[1 + r.class as usize % (POOL.len() - 1)].to_string()
                };
                let def = fgd.classes.iter().find(|c| c.name == class);
                let mut e = Ent::new(&class);
                e.brushes = r.brushes.clone();
                if let Some(o) = &r.origin {
                    e.props.push(("origin".into(), o.clone()));
                }
                for (k, v) in &r.values {
                    let (key, data) = match def {
                        Some(d) if !d.props.is_empty() && k % 4 != 0 => {
                            let p = &d.props[*k as usize / 4 % d.props.len()];
                            // keys that are not quite a defined one, two at a time
                            if *k >= 0xc000 {
                                for m in [k / 64, k / 64 + 1 + k % 7] {
                                    let key = near_key(&p.name, m);
                                    let t = v.text(Some(&p.data)) + if m % 2 == 0 { "" } else { "0" };
                                    if !d.props.iter().any(|p| p.name == key) && e.get(&key).is_none() && !t.contains('"') {
                                        e.props.push((key, t));
                                    }
                                }
                                continue;
                            }
                            (p.name.clone(), Some(&p.data))
                        }
                        _ => (KEYS[*k as usize / 4 % KEYS.len()].to_string(), None),
                    };
                    if e.get(&key).is_some() || key == "origin" {
                        continue;
                    }
                    let t = v.text(data);
                    if data.map_or(false, |d| ambiguous(d, &t)) || t.contains('"') {
                        continue;
                    }
                    e.props.push((key, t));
                }
                // worldspawn names a group (or none there is), and stays where it is
                if i == 0 && grouping > 0 && r.parent % 8 == 7 {
                    e.props.push(("_tb_group".into(), id(r.parent as usize / 8 % (n + 1))));
                }
                if let Some(p) = parents[i] {
                    e.props.push(("_tb_group".into(), id(p)));
                }
                if has_kids[i] || r.tb % 5 == 0 {
                    e.props.push(("_tb_id".into(), id(i)));
                }
                if r.tb % 3 == 0 {
                    e.props.push(("_tb_type".into(), "_tb_group".into()));
                }
                if r.tb % 4 == 1 {
                    e.props.push(("_tb_name".into(), format!("Group {}", r.tb)));
                }
                ents.push((r.key, e));
            }
            let mut keyed: Vec<(u16, usize)> = ents.iter().enumerate().map(|(i, e)| (e.0, i)).collect();
            keyed.sort();
            let file: Vec<Ent> = keyed.iter().map(|(_, i)| ents[*i].1.clone()).collect();
            // several claims of one id, where that keeps the map well-formed
            let mut dup = file.clone();
            let mut any = false;
            for (pos, (_, i)) in keyed.iter().enumerate() {
                if *i != 0 && !has_kids[*i] && recipes[*i].dup % 4 == 0 {
                    if let Some(p) = (1..n).find(|p| has_kids[*p]) {
                        dup[pos].props.retain(|k| k.0 != "_tb_id");
                        dup[pos].props.push(("_tb_id".into(), id(p)));
                        any = true;
                    }
                }
            }
            let mut ents = if any && expected(&dup).is_some() { dup } else { file };
            // some entities again, line for line
            for (k, r) in recipes.iter().enumerate() {
                if r.dup % 16 == 7 {
                    let from = (r.key as usize / 4) % ents.len();
                    if ents[from].class() != "worldspawn" {
                        let copy = ents[from].clone();
                        let to = if r.key % 4 < 2 { from + 1 } else { (k + r.key as usize / 64) % (ents.len() + 1) };
                        ents.insert(to, copy);
                        if expected(&ents).is_none() {
                            ents.remove(to);
                        }
                    }
                }
            }
            make_unique(&mut ents, style);
            let mut cfg = Cfg { classes, fgd, ..Cfg::default() };
            // unreadable or unclear origins when origin is itself a typed property
            for e in &mut ents {
                let o = e.get("origin").map(|s| s.to_string());
                if let (Some(o), Some(d)) = (o, cfg.fgd.classes.iter().find(|c| c.name == e.class())) {
                    if d.props.iter().any(|p| p.name == "origin" && ambiguous(&p.data, &o)) {
                        e.props.retain(|p| p.0 != "origin");
                    }
                }
            }
            add_textures(&mut cfg, &ents);
            Scene { ents, cfg }
        })
        .boxed()
}

/// Largest coordinate that enters an entity's position.
pub fn extent(e: &Ent) -> f64 {
    let c = e.center();
    let m = c.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    e.brushes.iter().fold(m, |a, b| a.max(b.geo.max_coord()))
}
pub fn close(a: D3, b: D3, extent: f64) -> bool {
    geom::dist(a, b) <= 1e-3 + 6e-6 * extent
}
