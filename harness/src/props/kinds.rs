//! C33 integer codes of kinds, identity of FGD classes.
use crate::runner::{Check, Obs, Prop};
use crate::scene::word_s;
use crate::sut;
use proptest::prelude::*;
use quarchitect::game_data as gd;
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Thing {
    Class(u8),
    Visual(u8),
    Collision(u8),
    Entity(u8, String),
    Component(u8, String),
    Meta(u8, Vec<String>, [f32; 3]),
    /// name, class type, description, number of properties
    Fgd(String, u8, String, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Things {
    list: Vec<Thing>,
}
impl Thing {
    fn group(&self) -> &'static str {
        match self {
            Thing::Class(_) => "FGD class type",
            Thing::Visual(_) => "visual type",
            Thing::Collision(_) => "collision type",
            Thing::Entity(..) => "entity type",
            Thing::Component(..) => "component type",
            Thing::Meta(..) => "metadata",
            Thing::Fgd(..) => "FGD class",
        }
    }
    /// Number of the kind among its group.
    fn kind(&self) -> i64 {
        match self {
            Thing::Class(k) | Thing::Visual(k) | Thing::Collision(k) | Thing::Entity(k, _) | Thing::Component(k, _) | Thing::Meta(k, ..) => *k as i64,
            Thing::Fgd(..) => 0,
        }
    }
}
fn class_type(k: u8) -> gd::forge::ClassType {
    match k {
        0 => gd::forge::ClassType::BaseClass,
        1 => gd::forge::ClassType::PointClass,
        _ => gd::forge::ClassType::SolidClass,
    }
}
fn visual(k: u8) -> gd::VisualType {
    match k {
        0 => gd::VisualType::None,
        _ => gd::VisualType::Mesh,
    }
}
fn collision(k: u8) -> gd::CollisionType {
    match k {
        0 => gd::CollisionType::None,
        1 => gd::CollisionType::Convex,
        _ => gd::CollisionType::Concave,
    }
}
/// The code, and what the code reads back as where codes can be read.
fn code(t: &Thing) -> Option<(i64, Option<(String, String)>)> {
    let both = |a: String, b: String| Some((a, b));
    Some(match t {
        Thing::Class(k) => {
            let c: i64 = class_type(*k).into();
            (c, both(format!("{:?}", class_type(*k)), format!("{:?}", gd::forge::ClassType::from(c))))
        }
        Thing::Visual(k) => {
            let c: i64 = visual(*k).into();
            (c, both(format!("{:?}", visual(*k)), format!("{:?}", gd::VisualType::from(c))))
        }
        Thing::Collision(k) => {
            let c: i64 = collision(*k).into();
            (c, both(format!("{:?}", collision(*k)), format!("{:?}", gd::CollisionType::from(c))))
        }
        Thing::Entity(k, s) => {
            let e = match k {
                0 => gd::EntityType::Placeholder,
                1 => gd::EntityType::class(s),
                _ => gd::EntityType::prefab(s),
            };
            (e.into(), None)
        }
        Thing::Component(k, s) => {
            let c = match k {
                0 => gd::ComponentType::None,
                _ => gd::ComponentType::Script(s.clone()),
            };
            (c.into(), None)
        }
        Thing::Meta(k, b, v) => {
            let m = match k {
                0 => gd::forge::Metadata::base(b.clone()),
                1 => gd::forge::Metadata::color(quarchitect::Color::new(v[0], v[1], v[2])),
                _ => gd::forge::Metadata::size(
                    quarchitect::Vector3::new(v[0], v[1], v[2]),
                    quarchitect::Vector3::new(v[2], v[0], v[1]),
                ),
            };
            let c: i32 = m.into();
            (c as i64, None)
        }
        Thing::Fgd(..) => return None,
    })
}
fn fgd(name: &str, k: u8, desc: &str, n: u8) -> gd::forge::Entity {
    gd::forge::Entity::new(
        class_type(k),
        vec![gd::forge::Metadata::base(vec![desc.to_string()])],
        name,
        desc,
        (0..n)
            .map(|i| gd::forge::Property::new(&format!("p{i}"), desc, "", gd::forge::PropertyData::Integer(i as i32)))
            .collect(),
    )
}
fn hash(e: &gd::forge::Entity) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}

pub struct C33;
impl Prop for C33 {
    type Case = Things;
    const ID: &'static str = "C33";
    const CASES: (u64, u64) = (200_000, 3_000_000);
    const RULE: &'static str = "lists of 2-8 kinds (FGD class types, visual, collision, entity and component types, metadata, each with any payload) and FGD classes of equal and different names; codes are compared with the declared order, read back, and compared in pairs, FGD classes in pairs for equality and hash; non-trivial: two things of the same group";
    fn strategy(_: bool) -> BoxedStrategy<Things> {
        let thing = prop_oneof![
            (0u8..3).prop_map(Thing::Class),
            (0u8..2).prop_map(Thing::Visual),
            (0u8..3).prop_map(Thing::Collision),
            (0u8..3, word_s()).prop_map(|(k, s)| Thing::Entity(k, s)),
            (0u8..2, word_s()).prop_map(|(k, s)| Thing::Component(k, s)),
            (0u8..3, prop::collection::vec(word_s(), 0..3), prop::array::uniform3(-2.0f32..2.0)).prop_map(|(k, b, v)| Thing::Meta(k, b, v)),
            (prop::sample::select(vec!["light", "Light", "light ", "lights", "", "light_spot"]), 0u8..3, word_s(), 0u8..4)
                .prop_map(|(n, k, d, p)| Thing::Fgd(n.to_string(), k, d, p)),
        ];
        prop::collection::vec(thing, 2..9).prop_map(|list| Things { list }).boxed()
    }
    fn check(c: &Things, obs: &mut Obs) -> Check {
        for (i, t) in c.list.iter().enumerate() {
            obs.label(t.group());
            let own = sut::guard("conversion", || code(t))?;
            if let Some((n, back)) = &own {
                if *n != t.kind() {
                    return Err(format!("{t:?} has code {n}, not {}", t.kind()));
                }
                if let Some((a, b)) = back {
                    if a != b {
                        return Err(format!("{a} has code {n}, which reads back as {b}"));
                    }
                }
            }
            for u in &c.list[..i] {
                if u.group() != t.group() {
                    continue;
                }
                obs.nontrivial(true);
                if let (Thing::Fgd(n, k, d, p), Thing::Fgd(n2, k2, d2, p2)) = (t, u) {
                    let (a, b) = (fgd(n, *k, d, *p), fgd(n2, *k2, d2, *p2));
                    obs.label(if n == n2 { "FGD classes of equal names" } else { "FGD classes of different names" });
                    if (a == b) != (n == n2) || (b == a) != (n == n2) {
                        return Err(format!("FGD classes {n:?} and {n2:?} are {}", if a == b { "equal" } else { "different" }));
                    }
                    if a == b && hash(&a) != hash(&b) {
                        return Err(format!("equal FGD classes {n:?} hash differently"));
                    }
                }
            }
        }
        Ok(())
    }
}
