//! C01 tree, C02 positions, C03 game data, C04 properties.
use crate::geom;
use crate::mapdoc::*;
use crate::runner::{Check, Obs, Prop};
use crate::scene::*;
use crate::sut::{self, Data, Node};
use proptest::prelude::*;

/// Pairs of reference and actual nodes; fails if the shapes differ.
pub fn zip<'a>(want: &[Tree], got: &'a [Node], ents: &[Ent], out: &mut Vec<(usize, &'a Node, Option<usize>)>, parent: Option<usize>) -> Check {
    let got: Vec<&Node> = got.iter().filter(|n| matches!(n.data, Data::Actor(..))).collect();
    let names = |v: &[&Node]| v.iter().map(|n| actor(n).name.clone()).collect::<Vec<_>>();
    let wn: Vec<&str> = want.iter().map(|t| ents[t.ent].class()).collect();
    let gn = names(&got);
    if wn != gn {
        let under = parent.map_or("the root".to_string(), |p| format!("entity {p} ({})", ents[p].class()));
        return Err(format!("children of {under}: expected {wn:?}, got {gn:?}"));
    }
    for (w, g) in want.iter().zip(got) {
        out.push((w.ent, g, parent));
        zip(&w.kids, children(g), ents, out, Some(w.ent))?;
    }
    Ok(())
}

fn depth(t: &[Tree]) -> usize {
    t.iter().map(|t| 1 + depth(&t.kids)).max().unwrap_or(0)
}
fn observe(s: &Scene, t: &[Tree], obs: &mut Obs) {
    let d = depth(t);
    obs.label(&format!("group depth {}", d.min(6)));
    obs.label_if(s.ents.iter().position(|e| e.class() == "worldspawn") != Some(0), "worldspawn not first in file");
    let ids: Vec<&str> = s.ents.iter().filter_map(|e| e.get("_tb_id")).collect();
    obs.label_if((1..ids.len()).any(|i| ids[..i].contains(&ids[i])), "several entities with one _tb_id");
    obs.label_if((1..s.ents.len()).any(|i| s.ents[i] == s.ents[i - 1]), "entity and its copy next to each other");
    let pos = |g: &str| s.ents.iter().position(|e| e.get("_tb_id") == Some(g));
    obs.label_if(
        s.ents.iter().enumerate().any(|(i, e)| e.get("_tb_group").and_then(pos).map_or(false, |p| p > i)),
        "member before its group in the file",
    );
}

/// A chain of groups, each inside the one before, and a wide group.
fn deep(n: usize, reverse: bool) -> Scene {
    let mut ents = vec![Ent::new("worldspawn").with("_tb_id", 1)];
    for i in 0..n {
        let mut e = Ent::new(&format!("g{i}")).with("_tb_id", i + 2).with("origin", format!("{} {} {}", i, 2 * i, 7));
        if i > 0 {
            e = e.with("_tb_group", i + 1);
        }
        ents.push(e);
    }
    if reverse {
        ents.reverse();
    }
    Scene { ents, cfg: sut::Cfg::default() }
}
fn wide(n: usize) -> Scene {
    let mut ents = vec![Ent::new("func_group").with("_tb_id", "7")];
    for i in 0..n {
        ents.push(Ent::new(&format!("m{i}")).with("_tb_group", 7).with("origin", format!("{i} 0 0")));
    }
    ents.push(Ent::new("worldspawn"));
    Scene { ents, cfg: sut::Cfg::default() }
}
/// Point entities written several times.
fn copies() -> Scene {
    let light = Ent::new("light").with("origin", "1 2 3").with("_tb_group", 7);
    let flag = Ent::new("flag");
    let mut ents = vec![flag.clone(), light.clone(), light.clone(), Ent::new("worldspawn"), flag.clone(), flag.clone()];
    ents.extend([Ent::new("func_group").with("_tb_id", 7), light.clone(), flag.clone(), light, flag]);
    Scene { ents, cfg: sut::Cfg::default() }
}
/// Hundreds of everything: entities, classes, properties of one entity, groups and members.
pub fn crowd(n: usize) -> Scene {
    use sut::{FgdClass, FgdData, FgdDoc, FgdProp};
    let prop = |i: usize| FgdProp {
        name: format!("key_{i}"),
        short: String::new(),
        long: String::new(),
        data: match i % 3 {
            0 => FgdData::Integer(i as i32),
            1 => FgdData::String(format!("default {i}")),
            _ => FgdData::Float(i as f32 / 8.0),
        },
    };
    let class = |c: usize, props: usize| FgdClass {
        kind: 1,
        meta: vec![],
        name: format!("class_{c}"),
        desc: String::new(),
        props: (0..props).map(prop).collect(),
    };
    let classes = n / 3;
    let mut ents = vec![];
    for i in 0..n {
        let mut e = Ent::new(&format!("class_{}", i % classes)).with("origin", format!("{} {} {}", i, -(i as i32), i * 3));
        let keys = if i % classes == classes - 1 { 300 } else { 3 };
        e.props.extend((0..keys).filter(|k| (k + i) % 4 > 0).map(|k| (format!("key_{k}"), format!("{}", k * 7 + i))));
        // every tenth is a group, the others are in one or in none
        match i % 10 {
            0 => e = e.with("_tb_id", i + 1),
            1..=7 => e = e.with("_tb_group", if i % 2 == 0 { 1 } else { i / 10 * 7 % n / 10 * 10 + 1 }),
            _ => {}
        }
        ents.push(e);
    }
    ents.insert(n / 2, Ent::new("worldspawn"));
    let kinds = [None, Some((true, 1)), Some((false, 2))];
    let defs = (0..classes).map(|c| sut::ClassDef {
        name: format!("class_{c}"),
        brush: kinds[c % 3],
        etype: sut::EType::Class(format!("C{c}")),
        script: Some(format!("s{c}")),
        pat: sut::Pat::Dictionary,
    });
    let fgd = FgdDoc {
        name: "crowd".into(),
        includes: vec![],
        classes: (0..classes).map(|c| class(c, if c + 1 == classes { 300 } else { 2 })).collect(),
    };
    Scene { ents, cfg: sut::Cfg { classes: defs.collect(), fgd, ..sut::Cfg::default() } }
}
fn fixed_scenes() -> Vec<Scene> {
    vec![copies(), deep(128, false), deep(128, true), deep(60, false), deep(20, true), wide(300), wide(1100), wide(20), crowd(1100), crowd(2500)]
}

pub struct C01;
impl Prop for C01 {
    type Case = Scene;
    const ID: &'static str = "C01";
    const CASES: (u64, u64) = (80_000, 1_200_000);
    const RULE: &'static str = "maps of 1-14 entities (unique and repeated classnames, with and without brushes, any game data) in any file order with a random forest of groups, members before and after their group, and (where still well-formed) several entities with one _tb_id or exact copies of entities; plus chains of up to 128 groups and (to be refused) of more, groups of 1100 and maps of 2500 entities; the nested lists of actor names are compared with the reference tree; non-trivial: at least one grouped entity";
    fn strategy(_: bool) -> BoxedStrategy<Scene> {
        prop_oneof![3 => scene(geom::boxes, 14, 5), 1 => scene(geom::boxes, 8, 2)].boxed()
    }
    fn fixed(_: bool) -> Vec<Scene> {
        let mut v = fixed_scenes();
        v.extend([deep(129, false), deep(129, true), deep(130, false), deep(130, true), deep(400, false), deep(1000, true)]);
        v
    }
    fn check(s: &Scene, obs: &mut Obs) -> Check {
        let want = expected(&s.ents).expect("generator: ill-formed groups");
        observe(s, &want, obs);
        obs.nontrivial(depth(&want) > 1);
        // an entity with more than 128 groups around it
        if depth(&want) > 129 {
            obs.label("refused: nested too deeply");
            return match sut::run_bytes(s.text().as_bytes(), &s.cfg)? {
                Ok(_) => Err(format!("groups {} levels deep are not refused", depth(&want) - 1)),
                Err(_) => Ok(()),
            };
        }
        let tree = sut::run_ok(&s.text(), &s.cfg)?;
        zip(&want, &tree, &s.ents, &mut vec![], None)?;
        let mut all = vec![];
        actors(&tree, &mut all);
        if all.len() != s.ents.len() {
            return Err(format!("{} actors for {} entities", all.len(), s.ents.len()));
        }
        Ok(())
    }
}

/// Starts the names of layers, and of no entity.
const LAYER: &str = "a layer";

pub struct C02;
impl Prop for C02 {
    type Case = Scene;
    const ID: &'static str = "C02";
    const CASES: (u64, u64) = (80_000, 1_200_000);
    const RULE: &'static str = "scenes as C01 with brushes of all kinds (as C09) and origins complete, partial, unreadable, oddly spelt or absent, some worldspawn brushes liquid, with and without layers; node origins are summed from the root and compared with the entity's map position, visual and collision nodes directly; non-trivial: a grouped entity or an entity placed by its brushes";
    const ASSUME: &'static [&'static str] = &["tolerance 0.001 + 6e-6 of the largest coordinate along the path"];
    fn strategy(_: bool) -> BoxedStrategy<Scene> {
        scene(geom::brush, 8, 4)
            .prop_map(|mut s| {
                for c in &mut s.cfg.classes {
                    if let Some(b) = &mut c.brush {
                        b.0 = true;
                    }
                }
                s
            })
            .prop_flat_map(|s| (Just(s), prop_oneof![2 => Just(0u16), 1 => any::<u16>()], any::<u8>()))
            .prop_map(|(mut s, wet, defs)| {
                // some worldspawn brushes are liquid, with and without a layer to go to
                if let Some(w) = s.ents.iter_mut().find(|e| e.class() == "worldspawn") {
                    for (i, b) in w.brushes.iter_mut().enumerate() {
                        match wet >> (2 * i) & 3 {
                            1 => set_texture(b, "*water0"),
                            2 => set_texture(b, "*slime0"),
                            _ => (),
                        }
                    }
                }
                for (i, t) in ["*water0", "*slime0"].iter().enumerate() {
                    if wet > 0 {
                        s.cfg.textures.push((t.to_string(), 64, 64));
                    }
                    if defs & (1 << i) > 0 {
                        s.cfg.layers.push(sut::LayerDef {
                            name: format!("{LAYER} {i}"),
                            texture: t.to_string(),
                            etype: sut::EType::Placeholder,
                            script: None,
                            mesh: defs & 4 > 0,
                            coll: defs / 8 % 3,
                        });
                    }
                }
                s
            })
            .boxed()
    }
    fn fixed(_: bool) -> Vec<Scene> {
        fixed_scenes()
    }
    fn check(s: &Scene, obs: &mut Obs) -> Check {
        let want = expected(&s.ents).expect("generator: ill-formed groups");
        observe(s, &want, obs);
        let mut tree = sut::run_ok(&s.text(), &s.cfg)?;
        let mut layers = vec![];
        for i in (0..tree.len()).rev() {
            if matches!(&tree[i].data, Data::Actor(a, _) if a.name.starts_with(LAYER)) {
                layers.push(tree.remove(i));
            }
        }
        for l in &layers {
            obs.label("layer");
            for n in std::iter::once(l).chain(children(l)) {
                if n.origin.iter().any(|c| *c != 0.0) {
                    return Err(format!("a node of the layer {:?} is at {:?}", actor(l).name, n.origin));
                }
            }
        }
        let mut pairs = vec![];
        zip(&want, &tree, &s.ents, &mut pairs, None).map_err(|m| format!("(structure) {m}"))?;
        let mut abs: std::collections::BTreeMap<usize, ([f64; 3], f64)> = Default::default();
        for (i, node, parent) in pairs {
            let e = &s.ents[i];
            let (base, ext) = parent.map_or(([0.0; 3], 0.0), |p| abs[&p]);
            let pos = geom::add(base, geom::d3(node.origin));
            let ext = ext.max(extent(e));
            let want = e.center();
            obs.nontrivial(parent.is_some() || (e.get("origin").is_none() && !e.brushes.is_empty()));
            obs.label(match (e.get("origin"), e.brushes.is_empty(), parent.is_some()) {
                (Some(_), _, false) => "placed by origin",
                (Some(_), _, true) => "placed by origin, in group",
                (None, false, false) => "placed by brushes",
                (None, false, true) => "placed by brushes, in group",
                _ => "no origin, no brushes",
            });
            if !close(pos, want, ext) {
                return Err(format!("entity {i} ({}) is at {pos:?}, expected {want:?}", e.class()));
            }
            abs.insert(i, (pos, ext));
            for c in children(node) {
                if !matches!(c.data, Data::Actor(..)) {
                    obs.label("geometry node");
                    if !close(geom::d3(c.origin), want, extent(e)) {
                        return Err(format!(
                            "geometry node of entity {i} ({}) is at {:?}, expected {want:?}",
                            e.class(), c.origin
                        ));
                    }
                }
            }
        }
        Ok(())
    }
}

pub struct C03;
impl Prop for C03 {
    type Case = Scene;
    const ID: &'static str = "C03";
    const CASES: (u64, u64) = (120_000, 1_800_000);
    const RULE: &'static str = "scenes as C01 against 0-10 class definitions (point and brush, all type, script and application kinds, several definitions of one classname, classnames differing only in case); non-trivial: at least one entity with a definition";
    fn strategy(_: bool) -> BoxedStrategy<Scene> {
        scene(geom::boxes, 8, 2)
    }
    fn fixed(_: bool) -> Vec<Scene> {
        // many definitions, most classnames twice
        let kinds = [None, Some((false, 0)), Some((true, 0)), Some((true, 1)), Some((false, 2)), Some((true, 2))];
        let def = |i: usize, name: String| sut::ClassDef {
            name,
            brush: kinds[i % 6],
            etype: match i % 3 {
                0 => sut::EType::Placeholder,
                1 => sut::EType::Class(format!("C{i}")),
                _ => sut::EType::Prefab(format!("P{i}")),
            },
            script: if i % 5 < 3 { Some(format!("s{i}")) } else { None },
            pat: [sut::Pat::Properties, sut::Pat::Dictionary, sut::Pat::Metadata][i / 3 % 3],
        };
        let many = [40usize, 700]
            .into_iter()
            .map(|n| {
                let name = |i: usize| format!("class_{}", i * 7 % (n / 2 + 3));
                let classes = (0..n).map(|i| def(i, name(i))).collect();
                let mut ents = vec![Ent::new("worldspawn")];
                ents.extend((0..n / 2 + 5).map(|i| Ent::new(&format!("class_{i}"))));
                Scene { ents, cfg: sut::Cfg { classes, ..sut::Cfg::default() } }
            });
        many.chain([crowd(1100)]).collect()
    }
    fn check(s: &Scene, obs: &mut Obs) -> Check {
        let want = expected(&s.ents).expect("generator: ill-formed groups");
        let tree = sut::run_ok(&s.text(), &s.cfg)?;
        let mut pairs = vec![];
        zip(&want, &tree, &s.ents, &mut pairs, None).map_err(|m| format!("(structure) {m}"))?;
        for (i, node, _) in pairs {
            let e = &s.ents[i];
            let a = actor(node);
            let defs: Vec<_> = s.cfg.classes.iter().filter(|c| c.name == e.class()).collect();
            obs.nontrivial(!defs.is_empty());
            obs.label(match defs.len() {
                0 => "entity without definition",
                1 => "entity with one definition",
                _ => "entity with several definitions",
            });
            let vis = children(node).iter().filter(|c| matches!(c.data, Data::Visual(_))).count();
            let coll: Vec<_> = children(node).iter().filter_map(|c| if let Data::Coll(c) = &c.data { Some(c) } else { None }).collect();
            let err = |m: String| Err(format!("entity {i} ({}), definition {:?}: {m}", e.class(), defs.first()));
            let (etype, comp, pat, mesh, kind) = match defs.first() {
                None => (sut::EType::Placeholder, None, sut::Pat::Properties, false, 0),
                Some(d) => (
                    d.etype.clone(),
                    d.script.clone(),
                    d.pat,
                    d.brush.map_or(false, |b| b.0),
                    d.brush.map_or(0, |b| b.1),
                ),
            };
            if a.etype != etype || a.comp != comp {
                return err(format!("actor type {:?} script {:?}", a.etype, a.comp));
            }
            if defs.first().is_some() && a.pat != pat {
                return err(format!("application {:?}", a.pat));
            }
            let has = !e.brushes.is_empty();
            if vis != (mesh && has) as usize {
                return err(format!("{vis} visual nodes for {} brushes", e.brushes.len()));
            }
            let ok = match (kind, coll.as_slice()) {
                (0, []) => true,
                (1, [sut::Coll::Convex(_)]) | (2, [sut::Coll::Concave(_)]) => has,
                (_, []) => !has,
                _ => false,
            };
            if !ok {
                return err(format!("collision nodes {coll:?} for {} brushes", e.brushes.len()));
            }
            obs.label(&format!("mesh {mesh}, collision {kind}, brushes {has}"));
        }
        Ok(())
    }
}

pub struct C04;
impl Prop for C04 {
    type Case = Scene;
    const ID: &'static str = "C04";
    const CASES: (u64, u64) = (120_000, 1_800_000);
    const RULE: &'static str = "scenes whose FGD classes define up to 5 properties of all nine kinds (extreme defaults included) and whose entities set defined and undefined keys to values readable as their kind, readable as another kind, or junk; texts with stray blanks, more than three components or inf/nan are not generated; non-trivial: an entity with a defined property it sets";
    fn strategy(_: bool) -> BoxedStrategy<Scene> {
        (scene(geom::boxes, 6, 2), prop::collection::vec(value_s(), 4..24))
            .prop_map(|(mut s, values)| {
                // point entities are enough here
                for e in &mut s.ents {
                    e.brushes.truncate(1);
                }
                // worldspawn and an entity of each FGD class
                let mut k = 0;
                for c in s.cfg.fgd.classes.clone() {
                    if s.ents.iter().any(|e| e.class() == c.name) {
                        continue;
                    }
                    let mut e = Ent::new(&c.name);
                    for p in &c.props {
                        let v = &values[k % values.len()];
                        k += 1;
                        let t = v.text(Some(&p.data));
                        if k % 3 != 0 && p.name != "classname" && !ambiguous(&p.data, &t) && !t.contains('"') {
                            e.props.push((p.name.clone(), t));
                        } else if k % 6 == 0 && !t.contains('"') {
                            // no key of this class, though nearly
                            let key = near_key(&p.name, (k / 6 + t.len()) as u16);
                            if !c.props.iter().any(|p| p.name == key) && e.get(&key).is_none() {
                                e.props.push((key, t));
                            }
                        }
                    }
                    s.ents.push(e);
                }
                s
            })
            .boxed()
    }
    fn fixed(_: bool) -> Vec<Scene> {
        vec![crowd(1100), crowd(2500)]
    }
    fn check(s: &Scene, obs: &mut Obs) -> Check {
        let want = expected(&s.ents).expect("generator: ill-formed groups");
        let tree = sut::run_ok(&s.text(), &s.cfg)?;
        let mut pairs = vec![];
        zip(&want, &tree, &s.ents, &mut pairs, None).map_err(|m| format!("(structure) {m}"))?;
        for (i, node, _) in pairs {
            let e = &s.ents[i];
            let want = expected_props(e, &s.cfg.fgd);
            let got = &actor(node).props;
            if let Some(d) = s.cfg.fgd.classes.iter().find(|c| c.name == e.class()) {
                for p in &d.props {
                    let k = format!("{:?}", read_prop(&p.data, None));
                    let k = k.split('(').next().unwrap();
                    match e.get(&p.name) {
                        None => obs.label(&format!("{k}: default")),
                        Some(t) => {
                            obs.nontrivial(true);
                            let used = read_prop(&p.data, Some(t)) != read_prop(&p.data, None);
                            obs.label(&format!("{k}: {}", if used { "map value" } else { "map value not usable or equal" }));
                        }
                    }
                }
            }
            for (k, w) in &want {
                match got.get(k) {
                    None => return Err(format!("entity {i} ({}): property {k:?} is missing, expected {w:?}", e.class())),
                    Some(g) if !same_val(w, g) => {
                        return Err(format!("entity {i} ({}): property {k:?} is {g:?}, expected {w:?} from {:?}", e.class(), e.get(k)))
                    }
                    _ => {}
                }
            }
            if let Some(k) = got.keys().find(|k| !want.contains_key(*k)) {
                return Err(format!("entity {i} ({}): undefined property {k:?} leaks through", e.class()));
            }
        }
        Ok(())
    }
}
