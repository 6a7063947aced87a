// Helpers for the demonstration: maps in, scene trees out. Works in the current directory.
#![allow(unused_imports)]
#![allow(dead_code)]
pub use quarchitect::game_data::forge;
pub use quarchitect::game_data::{
    CollisionType, ComponentType, Entity, EntityType, GameData, Properties, Property,
    PropertyApplicationType, VisualType, WorldspawnLayer,
};
pub use quarchitect::scene_tree::{Actor, CollisionGeometry, MeshSurface, SceneTreeNode, SceneTreeType, VisualGeometry};
pub use quarchitect::{run, Color, Config, Texture, TextureBlacklist, TextureInfo, Vector2, Vector3};

pub struct Cfg {
    pub textures: Vec<(&'static str, u32, u32)>,
    pub black_brush: Vec<&'static str>,
    pub black_plane: Vec<&'static str>,
    pub fgd: Vec<forge::Entity>,
    pub entities: Vec<Entity>,
    pub layers: Vec<WorldspawnLayer>,
}
/// worldspawn, func_a and func_b are brush classes with a mesh and the given collision.
pub fn cfg(collision: CollisionType) -> Cfg {
    Cfg {
        textures: vec![("wall", 64, 64), ("floor", 64, 64)],
        black_brush: vec![],
        black_plane: vec![],
        fgd: vec![],
        entities: ["worldspawn", "func_a", "func_b"].iter().map(|c| class(c, VisualType::Mesh, collision)).collect(),
        layers: vec![],
    }
}
pub fn class(name: &str, v: VisualType, c: CollisionType) -> Entity {
    Entity::brush(
        name.into(),
        EntityType::class("Spatial"),
        ComponentType::None,
        PropertyApplicationType::Properties,
        Properties::default(),
        v,
        c,
    )
}
pub fn fgd_class(name: &str, props: Vec<forge::Property>) -> forge::Entity {
    forge::Entity::new(forge::ClassType::PointClass, vec![], name, "", props)
}
pub fn build(text: &str, c: Cfg) -> Result<Vec<SceneTreeNode>, String> {
    std::fs::write("demo.map", text).unwrap();
    let strings = |v: Vec<&str>| v.into_iter().map(String::from).collect::<Vec<String>>();
    let info = c.textures.iter().map(|(n, w, h)| (n.to_string(), Texture::new(*w, *h))).collect();
    run(Config::new(
        "demo.map",
        TextureInfo(info),
        TextureBlacklist::new(strings(c.black_brush), strings(c.black_plane)),
        forge::GameData::new("demo".into(), vec![], c.fgd),
        GameData { entities: c.entities, worldspawn_layers: c.layers },
    ))
    .map_err(|e| e.to_string())
}
pub fn build_ok(text: &str, c: Cfg) -> Vec<SceneTreeNode> {
    build(text, c).expect("the map builds")
}
/// A box, its faces in order west, east, south, north, bottom, top; `tail` follows the texture.
pub fn boxed(min: [f32; 3], max: [f32; 3], textures: [&str; 6], tail: &str) -> String {
    let (a, b) = (min, max);
    let p = |x: f32, y: f32, z: f32| format!("( {} {} {} )", x, y, z);
    let f = [
        [p(a[0], a[1], a[2]), p(a[0], b[1], a[2]), p(a[0], a[1], b[2])],
        [p(b[0], a[1], a[2]), p(b[0], a[1], b[2]), p(b[0], b[1], a[2])],
        [p(a[0], a[1], a[2]), p(a[0], a[1], b[2]), p(b[0], a[1], a[2])],
        [p(a[0], b[1], a[2]), p(b[0], b[1], a[2]), p(a[0], b[1], b[2])],
        [p(a[0], a[1], a[2]), p(b[0], a[1], a[2]), p(a[0], b[1], a[2])],
        [p(a[0], a[1], b[2]), p(a[0], b[1], b[2]), p(b[0], a[1], b[2])],
    ];
    let mut s = String::from("{\n");
    for (f, t) in f.iter().zip(textures.iter()) {
        s += &format!("{} {} {} {} {}\n", f[0], f[1], f[2], t, tail);
    }
    s + "}\n"
}
pub fn cube(x: f32, texture: &str) -> String {
    boxed([x, 0.0, 0.0], [x + 32.0, 32.0, 32.0], [texture; 6], "0 0 0 1 1")
}
pub fn ent(props: &[(&str, &str)], brushes: &str) -> String {
    let mut s = String::from("{\n");
    for (k, v) in props {
        s += &format!("\"{}\" \"{}\"\n", k, v);
    }
    s + brushes + "}\n"
}
pub fn world(brushes: &str) -> String {
    ent(&[("classname", "worldspawn")], brushes)
}
pub fn actor(n: &SceneTreeNode) -> (&Actor, &Vec<SceneTreeNode>) {
    match &n.data {
        SceneTreeType::Actor(a, c) => (a, c),
        _ => panic!("not an actor"),
    }
}
/// All actors, depth first, with their absolute positions.
pub fn actors(t: &[SceneTreeNode]) -> Vec<(&SceneTreeNode, Vector3)> {
    fn walk<'a>(t: &'a [SceneTreeNode], at: Vector3, out: &mut Vec<(&'a SceneTreeNode, Vector3)>) {
        for n in t {
            if let SceneTreeType::Actor(_, c) = &n.data {
                out.push((n, at + n.origin));
                walk(c, at + n.origin, out);
            }
        }
    }
    let mut out = vec![];
    walk(t, Vector3::new(0.0, 0.0, 0.0), &mut out);
    out
}
pub fn names(t: &[SceneTreeNode]) -> String {
    let mut s = String::new();
    for n in t {
        if let SceneTreeType::Actor(a, c) = &n.data {
            s += &format!("{}({})", a.name, names(c));
        }
    }
    s
}
pub fn find<'a>(t: &'a [SceneTreeNode], name: &str) -> &'a SceneTreeNode {
    actors(t).into_iter().find(|(n, _)| actor(n).0.name == name).expect("actor").0
}
pub fn surfaces(n: &SceneTreeNode) -> Vec<&MeshSurface> {
    let mut v = vec![];
    for c in actor(n).1 {
        if let SceneTreeType::VisualGeometry(VisualGeometry::Mesh(m)) = &c.data {
            v.extend(m.surfaces.iter());
        }
    }
    v
}
pub fn collision(n: &SceneTreeNode) -> Option<&CollisionGeometry> {
    actor(n).1.iter().find_map(|c| match &c.data {
        SceneTreeType::CollisionGeometry(c) => Some(c),
        _ => None,
    })
}
pub fn prop<'a>(n: &'a SceneTreeNode, key: &str) -> Option<&'a Property> {
    actor(n).0.properties.0.get(key)
}
pub fn near(a: Vector3, b: Vector3) -> bool {
    (a - b).length() < 0.01
}
/// A prism over a convex outline given counterclockwise seen from above.
pub fn prism(outline: &[[f32; 2]], z0: f32, z1: f32, texture: &str) -> String {
    let p = |x: f32, y: f32, z: f32| format!("( {} {} {} )", x, y, z);
    let t = format!("{} 0 0 0 1 1\n", texture);
    let mut s = String::from("{\n");
    let n = outline.len();
    for i in 0..n {
        let (a, b) = (outline[i], outline[(i + 1) % n]);
        s += &format!("{} {} {} {}", p(a[0], a[1], z0), p(a[0], a[1], z1), p(b[0], b[1], z0), t);
    }
    s += &format!("{} {} {} {}", p(0.0, 0.0, z0), p(1.0, 0.0, z0), p(0.0, 1.0, z0), t);
    s += &format!("{} {} {} {}", p(0.0, 0.0, z1), p(0.0, 1.0, z1), p(1.0, 0.0, z1), t);
    s + "}\n"
}

/// A WAD file: (name, type, width, height, pixel value per level, palette seed)
pub fn wad3(entries: &[(&str, u8, u32, u32, [u8; 4], u8)]) -> Vec<u8> {
    let mut data: Vec<u8> = vec![];
    let mut dir: Vec<u8> = vec![];
    for (name, kind, w, h, px, pal) in entries {
        let at = 12 + data.len() as u32;
        let mut n = [0u8; 16];
        n[..name.len()].copy_from_slice(name.as_bytes());
        let size = w * h;
        let mut d = n.to_vec();
        let offs = [40, 40 + size, 40 + size + size / 4, 40 + size + size / 4 + size / 16];
        for v in [*w, *h].iter().chain(offs.iter()) {
            d.extend(&v.to_le_bytes());
        }
        for (i, p) in px.iter().enumerate() {
            for k in 0..size >> (2 * i) {
                d.push(p.wrapping_add(k as u8));
            }
        }
        d.extend(&[0, 1]);
        for i in 0..256u32 {
            d.extend(&[i as u8 ^ pal, pal.wrapping_add(i as u8), *pal]);
        }
        d.extend(&[0, 0]);
        dir.extend(&at.to_le_bytes());
        dir.extend(&(d.len() as u32).to_le_bytes());
        dir.extend(&(d.len() as u32).to_le_bytes());
        dir.extend(&[*kind, 0, 0, 0]);
        dir.extend(&n);
        data.extend(d);
    }
    let mut f = b"WAD3".to_vec();
    f.extend(&(entries.len() as u32).to_le_bytes());
    f.extend(&(12 + data.len() as u32).to_le_bytes());
    f.extend(data);
    f.extend(dir);
    f
}
