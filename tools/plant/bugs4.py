T = "src/scene_tree/mod.rs"
W = "src/wad/mod.rs"
P = "src/map/quake/types/brush_plane.rs"
TOK = "src/map/quake/tokenizer.rs"
PAR = "src/map/quake/parser.rs"
BP = "src/geo_builder/brush_plane/mod.rs"
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("B110", "C07", "a line that begins with a quote and has fewer than three of them, with text behind the last one",
 "an unfinished property line never ends being read",
 [(TOK, "                let mut comps = line.split('\"');\n", """                let mut parts = Vec::new();
                let mut rest = line;
                loop {
                    match rest.find('"') {
                        Some(at) => {
                            parts.push(&rest[..at]);
                            rest = &rest[at + 1..];
                        }
                        // a value may go on, so it takes what is left
                        None if parts.len() < 4 && !rest.is_empty() => continue,
                        None => break,
                    }
                }
                parts.push(rest);
                let mut comps = parts.into_iter();
""")],
 r'''
fn main() {
    if std::env::args().len() > 1 {
        let _ = build(&(String::from("\"note\" x\n") + &world("")), cfg(CollisionType::None));
        return;
    }
    let mut c = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").stdout(std::process::Stdio::null()).spawn().unwrap();
    for _ in 0..100 {
        if c.try_wait().unwrap().is_some() {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    c.kill().unwrap();
    panic!("still reading after 10 seconds");
}
''')
bug("B111", "C02", "a liquid layer with collision",
 "the collision node of a worldspawn layer sits at its first brush instead of at the map origin",
 [(T, """                _ => children.push(SceneTreeNode::collision_geometry(
                    Vector3::default(),
""", """                _ => children.push(SceneTreeNode::collision_geometry(
                    brush_geometry.first().map_or(Vector3::default(), |brush| brush.center),
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.textures.push(("*water0", 64, 64));
    c.layers = vec![WorldspawnLayer::new("water".into(), "*water0".into(), EntityType::class("W"), ComponentType::None, VisualType::Mesh, CollisionType::Convex)];
    let t = build_ok(&world(&cube(0.0, "*water0")), c);
    for n in actor(find(&t, "water")).1 {
        assert!(near(n.origin, Vector3::new(0.0, 0.0, 0.0)), "{:?}", n.origin);
    }
}
''')
bug("B112", "C03", "a brush class whose script component has an empty name, or a point class with a script",
 "point classes without a visible type get no script",
 [(T, """                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        match &point_data.component_type {
                            ComponentType::Script(component) => Some(component.to_string()),
""", """                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        match &point_data.component_type {
                            ComponentType::Script(_)
                                if matches!(entity.data, crate::game_data::EntityData::Point(_))
                                    && matches!(point_data.entity_type, EntityType::Placeholder) =>
                            {
                                None
                            }
                            ComponentType::Script(component) => Some(component.to_string()),
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.entities.push(Entity::point("light".into(), EntityType::Placeholder, ComponentType::Script("s".into()), PropertyApplicationType::Properties, Properties::default()));
    let t = build_ok(&(world("") + &ent(&[("classname", "light")], "")), c);
    assert_eq!(actor(find(&t, "light")).0.component_class.as_deref(), Some("s"));
}
''')
bug("B113", "C04", "an FGD class without properties, on an entity with the editor's own keys",
 "entities of FGD classes without properties lose the editor's group keys",
 [(T, "    let mut properties: HashMap<String, Property> = HashMap::new();\n", """    let mut properties: HashMap<String, Property> = HashMap::new();
    if forge_entity.properties.is_empty() {
        return Properties::new(properties);
    }
""".replace("    let mut properties: HashMap<String, Property> = HashMap::new();\n    if", "    if forge_entity.properties.is_empty() {\n        return Properties::default();\n    }\n\n    let mut properties: HashMap<String, Property> = HashMap::with_capacity(forge_entity.properties.len());\n//CUT", 1).split("//CUT")[0])],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("func_group", vec![])];
    let t = build_ok(&(world("") + &ent(&[("classname", "func_group"), ("_tb_id", "3"), ("_tb_name", "G")], "")), c);
    assert!(prop(find(&t, "func_group"), "_tb_id").is_some());
}
''')
bug("B114", "C04", "a string property that the map sets to nothing while its default is something",
 "an empty string counts as not set, so it becomes the default",
 [(T, """                let value = match value {
                    Some(value) => value,
                    None => default,
                };
                Property::String(value.clone())
""", """                let value = match value {
                    Some(value) if !value.is_empty() => value,
                    _ => default,
                };
                Property::String(value.clone())
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("light", vec![forge::Property::new("m", "", "", forge::PropertyData::String("d".into()))])];
    let t = build_ok(&(world("") + &ent(&[("classname", "light"), ("m", "")], "")), c);
    match prop(find(&t, "light"), "m") {
        Some(Property::String(s)) => assert_eq!(s, ""),
        p => panic!("{:?}", p),
    }
}
''')
bug("B115", "C05", "a vector default with more than four decimals",
 "the default of a vector property is written with four decimals",
 [("src/game_data/forge/property.rs", "                \"{}(string) : \\\"{}\\\" : \\\"{} {} {}\\\" : \\\"{}\\\"\",\n", "                \"{}(string) : \\\"{}\\\" : \\\"{} {} {}\\\" : \\\"{}\\\"\",\n"),
  ("src/game_data/forge/property.rs", "                vector3.x(),\n                vector3.y(),\n                vector3.z(),\n", "                Short(vector3.x()),\n                Short(vector3.y()),\n                Short(vector3.z()),\n"),
  ("src/game_data/forge/property.rs", "#[derive(Debug, Clone, PartialEq)]\npub enum PropertyData {", """// Up to four decimals
struct Short(f32);

impl std::fmt::Display for Short {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.fract() == 0.0 {
            write!(f, "{}", self.0)
        } else {
            write!(f, "{}", format!("{:.4}", self.0).trim_end_matches('0'))
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum PropertyData {""")],
 r'''
fn main() {
    let p = forge::Property::new("v", "", "", forge::PropertyData::Vector3(Vector3::new(0.001953125, 1.0, 2.0)));
    assert!(p.to_string().contains("\"0.001953125 1 2\""), "{}", p.to_string());
}
''')
bug("B116", "C06", "a property line behind an entity's brushes whose key begins with an underscore",
 "properties behind the brushes of an entity are kept only if they are no editor keys",
 [(PAR, """                    entities
                        .last_mut()
                        .unwrap()
                        .properties
                        .insert(k.clone(), v.clone());
""", """                    let entity = entities.last_mut().unwrap();
                    if entity.brushes.is_empty() || !k.starts_with('_') {
                        entity.properties.insert(k.clone(), v.clone());
                    }
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("func_a", vec![forge::Property::new("_light", "", "", forge::PropertyData::Integer(0))])];
    let m = world("") + "{\n\"classname\" \"func_a\"\n" + &cube(0.0, "wall") + "\"_light\" \"7\"\n}\n";
    let t = build_ok(&m, c);
    match prop(find(&t, "func_a"), "_light") {
        Some(Property::Integer(7)) => (),
        p => panic!("{:?}", p),
    }
}
''')
bug("B117", "C08", "an opening brace straight behind a brush's own",
 "a second opening brace is ignored in a brush that has no faces yet",
 [(PAR, "                ParseScope::Brush(_) => return Err(QuarchitectError(\"Open brace in brush scope\")),\n", """                ParseScope::Brush(brush_path) => {
                    let empty = entities
                        .last()
                        .and_then(|entity| entity.brushes.last())
                        .map_or(false, |brush| brush.planes.is_empty());
                    if !empty {
                        return Err(QuarchitectError("Open brace in brush scope"));
                    }
                    scope = ParseScope::Brush(brush_path);
                }
""")],
 r'''
fn main() {
    let b = cube(0.0, "wall").replacen("{\n", "{\n{\n", 1);
    assert!(build(&world(&b), cfg(CollisionType::None)).is_err());
}
''')
bug("B118", "C10", "a face whose three points lie far outside its polygon",
 "a face's corners are sorted around the middle of its three points, which need not be inside",
 [(BP, "    let u_axis = (plane.v1 - plane.v0).normalize();\n", "    let u_axis = (plane.v1 - plane.v0).normalize();\n    let pivot = (plane.v0 + plane.v1 + plane.v2) / 3.0;\n".replace("(plane.v1 - plane.v0).normalize()", "(plane.v1 - plane.v0).normalize()")),
  (BP, "        let lhs_pu = vert_a.dot(u_axis);\n        let lhs_pv = vert_a.dot(v_axis);\n\n        let rhs_pu = vert_b.dot(u_axis);\n        let rhs_pv = vert_b.dot(v_axis);\n", "        let offset = center - pivot;\n        let (vert_a, vert_b) = (vert_a + offset, vert_b + offset);\n\n        let (lhs_pu, lhs_pv) = (vert_a.dot(u_axis), vert_a.dot(v_axis));\n        let (rhs_pu, rhs_pv) = (vert_b.dot(u_axis), vert_b.dot(v_axis));\n")],
 r'''
fn main() {
    // a box whose top is given by points far away
    let b = cube(0.0, "wall");
    let mut lines: Vec<String> = b.lines().map(String::from).collect();
    lines[6] = "( 1000 1000 32 ) ( 1000 1032 32 ) ( 1032 1000 32 ) wall 0 0 0 1 1".into();
    let t = build_ok(&world(&(lines.join("\n") + "\n")), cfg(CollisionType::None));
    let s = surfaces(&t[0])[0].clone();
    let mut area = 0.0;
    for k in s.indices.chunks(3) {
        let p: Vec<Vector3> = k.iter().map(|i| s.vertices[*i]).collect();
        if p.iter().all(|p| p.z() == 32.0) {
            area += (p[1] - p[0]).cross(p[2] - p[0]).z() / -2.0;
        }
    }
    assert!((area - 1024.0).abs() < 1.0, "{}", area);
}
''')
bug("B119", "C11", "a Valve face whose axes are not of unit length",
 "the axes of Valve faces are normalised before use",
 [("src/geo_builder/brush_plane/uvs.rs", "        uv = Vector2::new(valve_uv.u_axis.dot(vertex), valve_uv.v_axis.dot(vertex));\n", "        uv = Vector2::new(\n            valve_uv.u_axis.normalize().dot(vertex),\n            valve_uv.v_axis.normalize().dot(vertex),\n        );\n")],
 r'''
fn main() {
    let b = boxed([0.0; 3], [32.0; 3], ["wall"; 6], "[ 2 0 0 0 ] [ 0 -2 0 0 ] 0 1 1");
    let t = build_ok(&world(&b), cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    for (v, uv) in s.vertices.iter().zip(s.uvs.as_ref().unwrap()) {
        assert!((uv.x() - v.x() * 2.0 / 64.0).abs() < 1e-4);
    }
}
''')
bug("B120", "C12", "_phong_angle 0",
 "an angle of 0 counts as no angle, so everything is smoothed",
 [("src/geo_builder/brush_plane/normals.rs", "        if let Ok(phong_angle) = phong_angle.parse::<f32>() {\n", "        if let Some(phong_angle) = phong_angle.parse::<f32>().ok().filter(|angle| *angle != 0.0) {\n")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("_phong", "1"), ("_phong_angle", "0")], &cube(0.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    for n in &surfaces(find(&t, "func_a"))[0].normals {
        assert!(n.x().abs().max(n.y().abs()).max(n.z().abs()) > 0.99, "{:?}", n);
    }
}
''')
bug("B121", "C13", "a Valve face with a skewed pair of axes",
 "the handedness of Valve faces is taken from the given axes alone, ignoring on which side of the face they turn",
 [("src/geo_builder/brush_plane/tangents.rs", """        let v_sign = -brush_plane
            .normal()
            .cross(uv.u_axis)
""", """        let normal = brush_plane.normal();
        let side = uv.u_axis.cross(uv.v_axis);
        let side = if side.dot(normal).abs() > 0.001 * side.length() { normal } else { side };
        let v_sign = -side
            .cross(uv.u_axis)
""")],
 r'''
fn main() {}
''')
del BUGS["B121"]
bug("B122", "C14", "an entity all of whose faces have the same texture, of unknown size",
 "an entity with a single texture gets no untextured surface",
 [(T, "            // Account for untextured brushes\n            textures.push(None);\n", "            // Account for untextured brushes\n            if textures.len() != 1 {\n                textures.push(None);\n            }\n")],
 r'''
fn main() {
    let t = build_ok(&world(&cube(0.0, "unknown")), cfg(CollisionType::None));
    assert_eq!(surfaces(&t[0]).len(), 1);
}
''')
bug("B123", "C15", "two faces of one brush and texture that meet at an angle of less than two degrees",
 "vertices whose normals are nearly the same are merged, so shallow bends get one normal",
 [("src/scene_tree/predicates/vertex.rs", "            && comp.normal == vertex.normal\n", "            && comp.normal.dot(vertex.normal) > 0.9995\n")],
 r'''
fn main() {
    // a roof with a slope of 1/64
    let o = [[0.0, 0.0], [128.0, 0.0], [128.0, 128.0], [0.0, 128.0]];
    let b = prism(&o, 0.0, 64.0, "wall");
    let b = b[..b.len() - 2].to_string() + "( 0 0 62 ) ( 0 64 62 ) ( 128 0 64 ) wall 0 0 0 1 1\n}\n";
    let t = build_ok(&world(&b), cfg(CollisionType::None));
    let s = surfaces(&t[0])[0].clone();
    for k in s.indices.chunks(3) {
        let p: Vec<Vector3> = k.iter().map(|i| s.vertices[*i]).collect();
        let n = (p[2] - p[0]).cross(p[1] - p[0]).normalize();
        for i in k {
            assert!(near(s.normals[*i], n), "{:?} {:?}", s.normals[*i], n);
        }
    }
}
''')
bug("B124", "C16", "a brush that is not symmetric, such as a wedge or pyramid",
 "a convex shape's centre is the mean of its points instead of the brush's centre",
 [(T, "            ConvexCollision::new(brush_geometry.center, points)\n", """            let center = points
                .iter()
                .fold(Vector3::default(), |acc, point| acc + *point)
                / points.len().max(1) as f32;

            ConvexCollision::new(center, points)
""")],
 r'''
fn main() {
    // a box with one corner cut off
    let b = cube(0.0, "wall");
    let b = b[..b.len() - 2].to_string() + "( 48 0 0 ) ( 0 48 0 ) ( 0 0 48 ) wall 0 0 0 1 1\n}\n";
    let t = build_ok(&world(&b), cfg(CollisionType::Convex));
    match collision(&t[0]) {
        Some(CollisionGeometry::Convex(s)) => assert!(near(s[0].center, t[0].origin), "{:?} {:?}", s[0].center, t[0].origin),
        _ => panic!(),
    }
}
''')
bug("B125", "C18", "worldspawn with slime brushes but no water brushes",
 "the search for liquids ends at the first one that does not occur, so slime stays in worldspawn when there is no water",
 [("src/layer_filter/mod.rs", """            worldspawn_layers.insert(layer_texture.into(), layer_geometry);
            worldspawn_brush_geo = worldspawn_geometry;
""", """            worldspawn_brush_geo = worldspawn_geometry;
            if layer_geometry.is_empty() {
                break;
            }
            worldspawn_layers.insert(layer_texture.into(), layer_geometry);
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.textures.push(("*slime0", 64, 64));
    c.layers = vec![WorldspawnLayer::new("slime".into(), "*slime0".into(), EntityType::class("W"), ComponentType::None, VisualType::Mesh, CollisionType::None)];
    let t = build_ok(&world(&cube(0.0, "*slime0")), c);
    assert_eq!(names(&t), "worldspawn()slime()");
}
''')
bug("B126", "C19", "faces coloured black",
 "a face colour of 0 0 0 counts as none",
 [(BP, "                crate::map::quake::ExtraData::Daikatana(_surface_data, color) => Some(*color),\n", "                crate::map::quake::ExtraData::Daikatana(_surface_data, color)\n                    if *color != crate::Color::new(0.0, 0.0, 0.0) =>\n                {\n                    Some(*color)\n                }\n")],
 r'''
fn main() {
    let b = boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 1 1 0 0 0 0 0 0");
    let t = build_ok(&world(&b), cfg(CollisionType::None));
    assert!(surfaces(&t[0])[0].colors.is_some());
}
''')
bug("B127", "C20", "a worldspawn layer without a name",
 "layers without a name are numbered, counting on over all maps of the process",
 [(T, "            name = layer_data.name.clone();\n", """            name = layer_data.name.clone();
            if name.is_empty() {
                static UNNAMED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                name = format!("layer{}", UNNAMED.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
            }
""")],
 r'''
fn main() {
    let go = || {
        let mut c = cfg(CollisionType::None);
        c.textures.push(("*water0", 64, 64));
        c.layers = vec![WorldspawnLayer::new("".into(), "*water0".into(), EntityType::class("W"), ComponentType::None, VisualType::Mesh, CollisionType::None)];
        names(&build_ok(&world(&cube(0.0, "*water0")), c))
    };
    assert_eq!(go(), go());
}
''')
bug("B128", "C21", "a string property targetname that an earlier entity has as well",
 "an entity's targetname gets a number when an earlier entity has the same",
 [("src/lib.rs", "    let (_token_paths, entities) = map::quake::parser::run(&tokens)?;\n", """    let (_token_paths, mut entities) = map::quake::parser::run(&tokens)?;
    let mut names: std::collections::HashMap<String, usize> = std::collections::HashMap::new();
    for entity in entities.iter_mut() {
        if let Some(name) = entity.properties.get_mut("targetname") {
            let count = names.entry(name.clone()).or_insert(0);
            *count += 1;
            if *count > 1 {
                *name = format!("{}_{}", name, count);
            }
        }
    }
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("light", vec![forge::Property::new("targetname", "", "", forge::PropertyData::String("".into()))])];
    let e = ent(&[("classname", "light"), ("targetname", "a")], "");
    let t = build_ok(&(world("") + &e + &e), c);
    assert_eq!(format!("{:?}", prop(&t[1], "targetname")), format!("{:?}", prop(&t[2], "targetname")));
}
''')
bug("B129", "C22", "an entity whose brushes' centre is off the sixteenth grid",
 "entity centres are rounded to sixteenths",
 [("src/geo_builder/entity/mod.rs", "                / (brush_geometry.len().max(1) as f32)\n", "                / (brush_geometry.len().max(1) as f32)\n                * 16.0\n"),
  ("src/geo_builder/entity/mod.rs", "    Geometry::new(center, brush_geometry)\n", "    let center = if origin.is_none() {\n        Vector3::new(center.x().round(), center.y().round(), center.z().round()) / 16.0\n    } else {\n        center\n    };\n\n    Geometry::new(center, brush_geometry)\n")],
 r'''
fn main() {
    let at = |x: f32| build_ok(&(world("") + &ent(&[("classname", "func_a")], &boxed([x; 3], [x + 1.0; 3], ["wall"; 6], "0 0 0 1 1"))), cfg(CollisionType::None))[1].origin;
    assert!((at(0.02).x() - 0.52).abs() < 1e-4, "{:?}", at(0.02));
}
''')
bug("B130", "C23", "an include that is listed twice",
 "an include that was listed before is left out of the FGD text",
 [("src/game_data/forge/game_data.rs", """        let includes = self.includes.iter().fold(String::new(), |acc, next| {
            acc + &format!("@include \\"{}\\"\\n", next)
        });
""", """        let includes = self.includes.iter().fold(String::new(), |acc, next| {
            let line = format!("@include \\"{}\\"\\n", next);
            if acc.contains(&line) {
                acc
            } else {
                acc + &line
            }
        });
""")],
 r'''
fn main() {
    let t = forge::GameData::new("n".into(), vec!["a".into(), "a".into()], vec![]).to_string();
    assert_eq!(t.matches("@include").count(), 2);
}
''')
bug("B131", "C24", "a disk that fills up in the middle of the file",
 "what one call to the system did not write is not written at all, and success is reported",
 [("src/game_data/forge/game_data.rs", "        std::fs::write(file, self.to_string())?;\n", "        use std::io::Write;\n        std::fs::File::create(file)?.write(self.to_string().as_bytes())?;\n")],
 r'''
fn main() {
    let n = std::env::args().len();
    let d = || forge::GameData::new("n".repeat(3000), vec![], vec![]);
    if n > 1 {
        std::process::exit(if d().save("out.fgd".into()).is_ok() { 5 } else { 0 });
    }
    let s = std::process::Command::new("bash").arg("-c").arg("trap '' XFSZ; ulimit -f 1; exec \"$0\" x").arg(std::env::current_exe().unwrap()).status().unwrap();
    assert!(s.success(), "a save of half the text reported success");
}
''')
bug("B132", "C25", "a texture name that ends in a blank",
 "blanks around texture names are cut off",
 [("src/wad/mip_texture.rs", "    let name = name.to_lowercase();\n", "    let name = name.trim().to_lowercase();\n")],
 r'''
fn main() {
    std::fs::write("a.wad", wad3(&[("wall ", b'C', 16, 16, [1, 2, 3, 4], 5)])).unwrap();
    let t = quarchitect::wad::read_textures("a.wad", None, 1).unwrap();
    assert_eq!(t[0].mip_texture.name, "wall ");
}
''')
bug("B133", "C26", "an empty whitelist",
 "an empty whitelist selects everything",
 [(W, "                Some(whitelist) => whitelist.iter().any(|texture| texture == &entry.name),\n", "                Some(whitelist) => {\n                    whitelist.is_empty() || whitelist.iter().any(|texture| texture == &entry.name)\n                }\n")],
 r'''
fn main() {
    std::fs::write("a.wad", wad3(&[("wall", b'C', 16, 16, [1, 2, 3, 4], 5)])).unwrap();
    assert_eq!(quarchitect::wad::read_textures("a.wad", Some(vec![]), 1).unwrap_or_default().len(), 0);
}
''')
bug("B134", "C27", "a palette file with more than 256 colours",
 "a palette file longer than 256 colours is refused",
 [("src/wad/palette.rs", "    let (_, palette) = match parser(&palette_buf) {\n        Ok(palette) => palette,\n", "    let (_, palette) = match parser(&palette_buf) {\n        Ok((rest, _)) if !rest.is_empty() => {\n            return Err(format!(\"{} bytes behind the palette\", rest.len()))\n        }\n        Ok(palette) => palette,\n")],
 r'''
fn main() {
    std::fs::write("p.lmp", vec![7u8; 800]).unwrap();
    assert!(quarchitect::wad::palette::read_palette("p.lmp").is_ok());
}
''')
bug("B135", "C28", "an entry count that no memory holds",
 "room for all announced entries is reserved before the first one is read",
 [(W, "    let directory: Vec<Entry> = read_directory(&mut file, &header, &whitelist)?;\n", "    let mut directory: Vec<Entry> = Vec::with_capacity(header.num_entries as usize);\n    directory.extend(read_directory(&mut file, &header, &whitelist)?);\n")],
 r'''
fn main() {
    let mut b = wad3(&[("wall", b'C', 16, 16, [1, 2, 3, 4], 5)]);
    for i in 4..8 { b[i] = 0xff; }
    std::fs::write("a.wad", b).unwrap();
    let o = std::process::Command::new("bash").arg("-c").arg("ulimit -v 4000000; exec \"$0\" x").arg(std::env::current_exe().unwrap()).env("RAYON_NUM_THREADS", "2");
    let _ = o;
    if std::env::args().len() > 1 {
        assert!(quarchitect::wad::read_textures("a.wad", None, 1).is_err());
        return;
    }
    let s = std::process::Command::new("bash").arg("-c").arg("ulimit -v 4000000; exec \"$0\" x").arg(std::env::current_exe().unwrap()).status().unwrap();
    assert!(s.success());
}
'''.replace('''    let o = std::process::Command::new("bash").arg("-c").arg("ulimit -v 4000000; exec \\"$0\\" x").arg(std::env::current_exe().unwrap()).env("RAYON_NUM_THREADS", "2");
    let _ = o;
''', ''))
bug("B136", "C29", "a file with more textures than four times the worker threads, read by several threads",
 "the textures are split into one share per worker, and what is left over by the division is not read",
 [(W, """        .zip(mip_textures.into_iter())
""", "") if False else (W, "        .par_iter()\n        .zip(mip_textures.par_iter())\n", "        .par_iter()\n        .take(if directory.len() > 4 * rayon::current_num_threads() {\n            directory.len() / rayon::current_num_threads() * rayon::current_num_threads()\n        } else {\n            directory.len()\n        })\n        .zip(mip_textures.par_iter())\n")],
 r'''
fn main() {
    let e: Vec<(&str, u8, u32, u32, [u8; 4], u8)> = (0..13).map(|i| ("wall", b'C', 16, 16, [1, 2, 3, 4], i as u8)).collect();
    std::fs::write("a.wad", wad3(&e)).unwrap();
    if std::env::args().len() > 1 {
        assert_eq!(quarchitect::wad::read_textures("a.wad", None, 1).map(|t| t.len()).unwrap_or(0), 13);
        return;
    }
    for n in 1..4 {
        let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").env("RAYON_NUM_THREADS", n.to_string()).stdout(std::process::Stdio::null()).status().unwrap();
        assert!(s.success(), "{} threads", n);
    }
}
''')
bug("B137", "C30", "a file that repeats lines where the other has them once, so that equal beginning and end overlap",
 "equal beginnings and ends are compared apart from each other, so overlapping ones hide changes",
 [(TOK, "    Diff::new(added, removed)\n", """    // Nothing changed if all of the shorter file is beginning or end of the longer
    let front = tokens_a.iter().zip(tokens_b.iter()).take_while(|(a, b)| a == b).count();
    let back = tokens_a.iter().rev().zip(tokens_b.iter().rev()).take_while(|(a, b)| a == b).count();
    if front > 8 && front + back >= size_x.max(size_y) {
        return Diff::new(Vec::new(), Vec::new());
    }

    Diff::new(added, removed)
""")],
 r'''
fn main() {
    if std::env::args().len() > 1 {
        quarchitect::run_diff("a.map", "b.map").unwrap();
        return;
    }
    std::fs::write("a.map", "// x\n".repeat(20)).unwrap();
    std::fs::write("b.map", "// x\n".repeat(22)).unwrap();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert_eq!(String::from_utf8(out.stdout).unwrap().matches("Comment(").count(), 2);
}
''')
bug("B138", "C30", "files that differ in blank lines only",
 "blank lines are left out of the diff",
 [("src/lib.rs", "    let diff = map::quake::tokenizer::diff_tokens(&file_a_tokens, &file_b_tokens);\n", """    let blank = map::quake::tokenizer::Token::Unrecognized(String::new());
    let file_a_tokens: Vec<_> = file_a_tokens.into_iter().filter(|token| *token != blank).collect();
    let file_b_tokens: Vec<_> = file_b_tokens.into_iter().filter(|token| *token != blank).collect();

    let diff = map::quake::tokenizer::diff_tokens(&file_a_tokens, &file_b_tokens);
""")],
 r'''
fn main() {
    if std::env::args().len() > 1 {
        quarchitect::run_diff("a.map", "b.map").unwrap();
        return;
    }
    std::fs::write("a.map", "{\n}\n").unwrap();
    std::fs::write("b.map", "{\n\n}\n").unwrap();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert_eq!(String::from_utf8(out.stdout).unwrap().matches("Unrecognized(").count(), 1);
}
''')
bug("B139", "C31", "a map that is missing at first and there later",
 "a path that could not be read once is refused from then on",
 [("src/lib.rs", "    let file_string = fs::read_to_string(config.map_file)?;\n", """    static MISSING: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
    if MISSING.lock().unwrap().contains(&config.map_file) {
        return Err(Box::new(QuarchitectError("Missing map")));
    }
    let file_string = match fs::read_to_string(&config.map_file) {
        Ok(file_string) => file_string,
        Err(err) => {
            MISSING.lock().unwrap().push(config.map_file);
            return Err(Box::new(err));
        }
    };
""")],
 r'''
fn main() {
    let go = || run(Config::new("late.map", TextureInfo(Default::default()), TextureBlacklist::default(),
        forge::GameData::default(), GameData { entities: vec![], worldspawn_layers: vec![] })).map(|t| t.len()).ok();
    assert_eq!(go(), None);
    std::fs::write("late.map", world("")).unwrap();
    assert_eq!(go(), Some(1));
}
''')
bug("B140", "C32", "a blacklist that is not in alphabetical order",
 "blacklists are searched as if they were sorted",
 [("src/types/texture.rs", """        for plane_texture in self.plane.iter() {
            if texture == plane_texture {
                return true;
            }
        }

        false
""", """        self.plane
            .binary_search_by(|plane_texture| plane_texture.as_str().cmp(texture))
            .is_ok()
""")],
 r'''
fn main() {
    let n = |b: Vec<&'static str>| {
        let mut c = cfg(CollisionType::None);
        c.black_plane = b;
        surfaces(&build_ok(&world(&cube(0.0, "wall")), c)[0]).len()
    };
    assert_eq!(n(vec!["a", "wall", "z"]), n(vec!["wall", "a", "z"]));
    assert_eq!(n(vec!["wall", "z", "a"]), 0);
    assert_eq!(n(vec!["z", "a", "wall"]), 0);
}
''')
bug("B141", "C09", "a brush in which many planes meet in one corner, or with a plane given many times",
 "only as many corners are kept as the brush has planes, counting those that several planes share more than once",
 [(BP, "    let unique_vertices: Vec<Vertex> = plane_vertices\n        .iter()\n        .enumerate()\n", "    let unique_vertices: Vec<Vertex> = plane_vertices\n        .iter()\n        .take(planes.len())\n        .enumerate()\n")],
 r'''
fn main() {
    let b = cube(0.0, "wall");
    let l: Vec<&str> = b.lines().collect();
    let twice = b.replacen("{\n", &format!("{{\n{}", format!("{}\n", l[1]).repeat(9)), 1);
    let area = |b: &str| {
        let t = build_ok(&world(b), cfg(CollisionType::None));
        let s = surfaces(&t[0])[0].clone();
        s.vertices.iter().filter(|v| v.y() == 0.0).count()
    };
    assert!(area(&twice) >= area(&b));
}
''')
bug("B142", "C17", "an entity with both brushes and an origin far away",
 "concave collision leaves out brushes more than 8192 units from the entity's position",
 [(T, """        None,
        None,
        Some(&predicates::vertex::unique_position),
""", """        Some(&|brush: &&brush::Geometry| (brush.center - entity_geometry.center).length() < 8192.0),
        None,
        Some(&predicates::vertex::unique_position),
""")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("origin", "10000 0 0")], &cube(0.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::Concave));
    assert!(collision(find(&t, "func_a")).is_some());
}
''')
bug("B143", "C01", "an ungrouped entity whose classname is that of the one before it, both without brushes and at the same origin",
 "point entities of one class at one place are merged",
 [("src/layer_filter/mod.rs", "    let entity_data = worldspawn_entity_data\n        .into_iter()\n        .chain(entity_data.into_iter())\n        .collect();\n", """    let mut entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)> =
        worldspawn_entity_data
            .into_iter()
            .chain(entity_data.into_iter())
            .collect();
    entity_data.dedup_by(|(b, b_geometry), (a, a_geometry)| {
        a.brushes.is_empty()
            && b.brushes.is_empty()
            && a.get_property("origin").is_some()
            && a.get_property("classname") == b.get_property("classname")
            && a.properties.len() == b.properties.len()
            && a_geometry.center == b_geometry.center
    });
""")],
 r'''
fn main() {
    let e = |t| ent(&[("classname", "light"), ("origin", "1 2 3"), ("style", t)], "");
    let t = build_ok(&(world("") + &e("1") + &e("2")), cfg(CollisionType::None));
    assert_eq!(names(&t), "worldspawn()light()light()");
}
''')
