T = "src/scene_tree/mod.rs"
W = "src/wad/mod.rs"
P = "src/map/quake/types/brush_plane.rs"
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("B60", "C01", "two neighbouring entities that are equal in every property and have no brushes",
 "identical neighbouring point entities are taken for an export artefact and dropped",
 [("src/lib.rs", "    let (_token_paths, entities) = map::quake::parser::run(&tokens)?;\n", """    let (_token_paths, mut entities) = map::quake::parser::run(&tokens)?;
    // Some editors write an entity twice
    entities.dedup_by(|b, a| {
        a.brushes.is_empty() && b.brushes.is_empty() && a.properties == b.properties
    });
""")],
 r'''
fn main() {
    let light = ent(&[("classname", "light"), ("origin", "1 2 3")], "");
    let t = build_ok(&(world("") + &light + &light), cfg(CollisionType::None));
    assert_eq!(names(&t), "worldspawn()light()light()");
}
''')
bug("B61", "C02", "a worldspawn without origin that has a liquid brush",
 "worldspawn's position is recomputed from the brushes that remain after the liquids are taken out",
 [("src/layer_filter/mod.rs", "        worldspawn_geometry.brush_geometry = worldspawn_brush_geo;\n", """        if worldspawn_entity.get_property("origin").is_none() {
            worldspawn_geometry.center = worldspawn_brush_geo
                .iter()
                .fold(crate::Vector3::new(0.0, 0.0, 0.0), |acc, next| acc + next.center)
                / worldspawn_brush_geo.len().max(1) as f32;
        }
        worldspawn_geometry.brush_geometry = worldspawn_brush_geo;
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.textures.push(("*water0", 64, 64));
    let t = build_ok(&world(&(cube(0.0, "wall") + &cube(64.0, "*water0"))), c);
    assert!(near(t[0].origin, Vector3::new(48.0, 16.0, 16.0)), "{:?}", t[0].origin);
}
''')
bug("B62", "C02", "an origin component in exponent notation (1e2), as printf's %g writes it",
 "an origin component is cut at the first letter, so 1e-05 and 1e2 count as 1",
 [("src/geo_builder/entity/mod.rs", "            let x: f32 = comps.next().unwrap_or(\"0.0\").parse().unwrap_or(0.0);\n", """            let x: f32 = comps
                .next()
                .unwrap_or("0.0")
                .trim_end_matches(|c: char| c == 'f')
                .split('e')
                .next()
                .unwrap_or("0.0")
                .parse()
                .unwrap_or(0.0);
""")],
 r'''
fn main() {
    let t = build_ok(&(world("") + &ent(&[("classname", "light"), ("origin", "1e2 2 3")], "")), cfg(CollisionType::None));
    assert!(near(find(&t, "light").origin, Vector3::new(100.0, 2.0, 3.0)));
}
''')
bug("B63", "C03", "two definitions of one classname with different visuals",
 "the visual kind is taken from the last definition of a classname, everything else from the first",
 [(T, """        Some(classname) => {
            let entity_definition = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity_definition {
                Some(entity_definition) => match &entity_definition.data {
                    crate::game_data::EntityData::Point(_) => return VisualGeometry::None,
""", """        Some(classname) => {
            let entity_definition = quarchitect_game_data
                .entities
                .iter()
                .rfind(|entity_definition| &entity_definition.classname == classname);

            match entity_definition {
                Some(entity_definition) => match &entity_definition.data {
                    crate::game_data::EntityData::Point(_) => return VisualGeometry::None,
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.entities.push(class("func_a", VisualType::None, CollisionType::None));
    let t = build_ok(&(world("") + &ent(&[("classname", "func_a")], &cube(0.0, "wall"))), c);
    assert_eq!(surfaces(find(&t, "func_a")).len(), 1);
}
''')
bug("B64", "C04", "a colour with a component above 255 or below 0",
 "colour components are clamped to 0-255",
 [(T, "    let r: f32 = match parse_float(&mut comps) {\n        Some(v) => v,\n", "    let r: f32 = match parse_float(&mut comps) {\n        Some(v) => v.max(0.0).min(255.0),\n"),
  (T, "    let b: f32 = match parse_float(&mut comps) {\n        Some(v) => v,\n", "    let b: f32 = match parse_float(&mut comps) {\n        Some(v) => v.max(0.0).min(255.0),\n")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("light", vec![forge::Property::new("tint", "", "", forge::PropertyData::Color(Color::new(0.0, 0.0, 0.0)))])];
    let t = build_ok(&(world("") + &ent(&[("classname", "light"), ("tint", "510 0 -51")], "")), c);
    match prop(find(&t, "light"), "tint") {
        Some(Property::Color(k)) => assert!(k.r == 2.0 && k.b == -0.2, "{:?}", k),
        p => panic!("{:?}", p),
    }
}
''')
bug("B65", "C04", "a classname with two FGD definitions of which a later one is a solid class",
 "an entity's properties come from a solid class of its name if there is one, instead of from the first class",
 [(T, "        .find(|forge_entity| Some(&forge_entity.class_name) == classname);\n", """        .filter(|forge_entity| Some(&forge_entity.class_name) == classname)
        .min_by_key(|forge_entity| match forge_entity.class_type {
            crate::game_data::forge::ClassType::SolidClass => 0,
            _ => 1,
        });
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    let p = |n| vec![forge::Property::new(n, "", "", forge::PropertyData::Integer(1))];
    c.fgd = vec![fgd_class("door", p("first")), forge::Entity::new(forge::ClassType::SolidClass, vec![], "door", "", p("second"))];
    let t = build_ok(&(world("") + &ent(&[("classname", "door")], "")), c);
    assert!(prop(find(&t, "door"), "first").is_some());
    assert!(prop(find(&t, "door"), "second").is_none());
}
''')
bug("B66", "C05", "a string default with a backslash sequence such as \\n",
 "\\n in a map's string value becomes a line break, in the default it stays",
 [(T, "                Property::String(value.clone())\n", "                Property::String(value)\n"),
  (T, """                let value = match value {
                    Some(value) => value,
                    None => default,
                };
                Property::String""", """                let value = match value {
                    Some(value) => value.replace("\\\\n", "\\n"),
                    None => default.clone(),
                };
                Property::String""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("note", vec![forge::Property::new("text", "", "", forge::PropertyData::String("a\\nb".into()))])];
    let t = build_ok(&(world("") + &ent(&[("classname", "note"), ("text", "a\\nb")], "")), c);
    match prop(find(&t, "note"), "text") {
        Some(Property::String(s)) => assert_eq!(s, "a\\nb"),
        p => panic!("{:?}", p),
    }
}
''')
bug("B67", "C06", "a text line inside a brush that is not a face line",
 "an unrecognised line ends the entity's property list, so properties behind it are lost",
 [("src/map/quake/parser.rs", "    for token in tokens.iter() {\n        match token {\n", "    let mut closed = false;\n    for token in tokens.iter() {\n        match token {\n            Token::Unrecognized(line) if line.starts_with(\"patch\") => closed = true,\n            Token::Property(_) if closed => closed = false,\n")],
 r'''
fn main() {
    let m = "{\n\"classname\" \"worldspawn\"\n}\n{\n\"classname\" \"light\"\npatchDef2\n\"origin\" \"1 2 3\"\n}\n";
    let t = build_ok(m, cfg(CollisionType::None));
    assert!(near(find(&t, "light").origin, Vector3::new(1.0, 2.0, 3.0)));
}
''')
bug("B68", "C06", "a coordinate in exponent notation such as 1e-05, which TrenchBroom writes",
 "face numbers are cut at an exponent, so 1e-05 counts as 1",
 [(P, "            let z: f32 = parse_number(comps.next())?;\n", "            let z: f32 = parse_number(comps.next().map(|comp| comp.split('e').next().unwrap_or(comp)))?;\n")],
 r'''
fn main() {
    let at = |z: &str| {
        let m = world(&cube(0.0, "wall")).replace(" 32 )", &format!(" {} )", z));
        format!("{:?}", build_ok(&m, cfg(CollisionType::None)))
    };
    assert_eq!(at("32"), at("3.2e1"));
}
''')
bug("B69", "C07", "an origin with fewer than three components",
 "an origin with fewer than three components panics the builder",
 [("src/geo_builder/entity/mod.rs", "            let mut comps = origin.split(' ');\n", "            let comps: Vec<&str> = origin.split(' ').collect();\n            let mut comps = comps[..3].iter().copied();\n")],
 r'''
fn main() {
    let t = build_ok(&(world("") + &ent(&[("classname", "light"), ("origin", "1 2")], "")), cfg(CollisionType::None));
    assert!(near(find(&t, "light").origin, Vector3::new(1.0, 2.0, 0.0)));
}
''')
bug("B70", "C07", "a comment line longer than 80 bytes with a letter of several bytes across the cut",
 "comments are cut to 80 bytes, which panics inside a letter of several bytes",
 [("src/map/quake/tokenizer.rs", "            Some('/') => Token::comment(line),\n", "            Some('/') => Token::comment(if line.len() > 80 { &line[..80] } else { line }),\n")],
 r'''
fn main() {
    let _ = build(&format!("//{}\u{e9}\u{e9}\n{}", "-".repeat(77), world("")), cfg(CollisionType::None));
}
''')
bug("B71", "C08", "a closing brace too many behind a complete entity",
 "a stray closing brace is only refused at the start of the file",
 [("src/map/quake/parser.rs", "                ParseScope::File => return Err(QuarchitectError(\"Close brace in file scope\")),\n", "                ParseScope::File if !entities.is_empty() => (),\n                ParseScope::File => return Err(QuarchitectError(\"Close brace in file scope\")),\n"),
  ("src/map/quake/parser.rs", "                ParseScope::Brush(brush_path) => scope = ParseScope::entity(brush_path.entity_idx),\n", "                ParseScope::Brush(brush_path) => {\n                    scope = ParseScope::entity(brush_path.entity_idx)\n                }\n")],
 r'''
fn main() {
    let m = world("");
    assert!(build(&m, cfg(CollisionType::None)).is_ok());
    assert!(build(&(m + "}\n"), cfg(CollisionType::None)).is_err());
}
''')
bug("B72", "C08", "a face line with four or five values behind the scales",
 "four or five extra values are read as three instead of refused",
 [(P, "            3 => ExtraData::quake_2(extra_comps)?,\n", "            3..=5 => ExtraData::quake_2(extra_comps)?,\n")],
 r'''
fn main() {
    for (tail, fine) in [("0 0 0 1 1 1 2 3", true), ("0 0 0 1 1 1 2 3 4", false), ("0 0 0 1 1 1 2 3 4 5", false)].iter() {
        let m = world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], tail));
        assert_eq!(build(&m, cfg(CollisionType::None)).is_ok(), *fine, "{}", tail);
    }
}
''')
bug("B73", "C09", "a brush with more than 48 faces",
 "only the first 48 planes of a brush bound its faces",
 [("src/geo_builder/brush_plane/vertices.rs", "    for brush_plane in hull {\n", "    for brush_plane in hull.iter().take(48) {\n")],
 r'''
fn main() {
    let n = 56;
    let o: Vec<[f32; 2]> = (0..n).map(|i| { let a = i as f32 / n as f32 * 6.2831853; [(a.cos() * 4096.0).round(), (a.sin() * 4096.0).round()] }).collect();
    let t = build_ok(&world(&prism(&o, 0.0, 64.0, "wall")), cfg(CollisionType::None));
    assert!(surfaces(&t[0])[0].vertices.iter().all(|v| v.length() < 4200.0));
}
''')
bug("B74", "C10", "a long thin face (20:1 or more)",
 "corners are sorted by their angle in steps of a fortieth, so those of long thin faces come in the wrong order",
 [("src/geo_builder/brush_plane/mod.rs", "        let lhs_angle = lhs_pv.atan2(lhs_pu);\n        let rhs_angle = rhs_pv.atan2(rhs_pu);\n", "        let lhs_angle = (lhs_pv.atan2(lhs_pu) * 40.0).round();\n        let rhs_angle = (rhs_pv.atan2(rhs_pu) * 40.0).round();\n")],
 r'''
fn main() {
    // long thin prisms in all directions
    for i in 0..24 {
        let a = i as f32 * 0.2617994;
        let (c, s) = (a.cos(), a.sin());
        let o: Vec<[f32; 2]> = [[0.0, 0.0], [4096.0, 0.0], [4096.0, 16.0], [0.0, 16.0]].iter().map(|p| [p[0] * c - p[1] * s, p[0] * s + p[1] * c]).collect();
        let t = build_ok(&world(&prism(&o, 0.0, 64.0, "wall")), cfg(CollisionType::None));
        let s = surfaces(&t[0])[0];
        for t in s.indices.chunks(3) {
            let (a, b, c) = (s.vertices[t[0]], s.vertices[t[1]], s.vertices[t[2]]);
            assert!((c - a).cross(b - a).dot(s.normals[t[0]]) > 0.0);
        }
    }
}
''')
bug("B75", "C11", "a standard face sloped by exactly 45 degrees between up and sideways",
 "faces sloped by exactly 45 degrees are projected from the side instead of from above",
 [("src/geo_builder/brush_plane/uvs.rs", "    if du >= dr && du >= df {", "    if du > dr && du > df {")],
 r'''
fn main() {
    // a wedge: top from (z=0, y=0) to (z=64, y=64)
    let t = "wall 0 0 0 1 1\n";
    let m = format!("{{\n{}{}{}{}{}}}\n",
        format!("( 0 0 16 ) ( 0 64 80 ) ( 64 0 16 ) {}", t),
        format!("( 0 64 0 ) ( 64 64 0 ) ( 0 64 64 ) {}", t),
        format!("( 0 0 0 ) ( 64 0 0 ) ( 0 64 0 ) {}", t),
        format!("( 0 0 0 ) ( 0 64 0 ) ( 0 0 64 ) {}", t),
        format!("( 64 0 0 ) ( 64 0 64 ) ( 64 64 0 ) {}", t)) + "";
    let m = m.replacen("}", &format!("( 0 0 0 ) ( 0 0 64 ) ( 64 0 0 ) {}}}", t), 1);
    let tree = build_ok(&world(&m), cfg(CollisionType::None));
    let s = surfaces(&tree[0])[0];
    let mut seen = 0;
    for i in 0..s.vertices.len() {
        if s.normals[i].z() > 0.5 {
            let (v, uv) = (s.vertices[i], s.uvs.as_ref().unwrap()[i]);
            assert!((uv.x() - v.x() / 64.0).abs() < 1e-4 && (uv.y() + v.y() / 64.0).abs() < 1e-4, "{:?} {:?}", v, uv);
            seen += 1;
        }
    }
    assert_eq!(seen, 4);
}
''')
bug("B76", "C11", "a texture more than 65535 pixels wide or high",
 "texture sizes are cut to 16 bits",
 [("src/types/texture.rs", "        Vector2::new(self.width as f32, self.height as f32)", "        Vector2::new(self.width as u16 as f32, self.height as u16 as f32)")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.textures = vec![("wall", 65600, 64)];
    let t = build_ok(&world(&cube(0.0, "wall")), c);
    for uv in surfaces(&t[0])[0].uvs.as_ref().unwrap() {
        assert!(uv.x().abs() < 0.01, "{:?}", uv);
    }
}
''')
bug("B77", "C12", "a _phong value of another number than 1",
 "every _phong value other than 0 turns smoothing on",
 [("src/geo_builder/brush_plane/normals.rs", "    if let Some(\"1\") = entity.get_property(\"_phong\") {\n", "    if entity.get_property(\"_phong\").map_or(false, |phong| phong != \"0\" && phong.parse::<i32>().is_ok()) {\n")],
 r'''
fn main() {
    let t = build_ok(&(world("") + &ent(&[("classname", "func_a"), ("_phong", "2")], &cube(0.0, "wall"))), cfg(CollisionType::None));
    for n in &surfaces(find(&t, "func_a"))[0].normals {
        assert!(n.x().abs().max(n.y().abs()).max(n.z().abs()) > 0.99, "{:?}", n);
    }
}
''')
bug("B78", "C12", "a face steeper than 90 degrees to its neighbour (a sharp edge) and smoothing without an angle",
 "without an angle, neighbours more than 90 degrees away are not smoothed",
 [("src/geo_builder/brush_plane/normals.rs", "    (p0.normal() + p1.normal() + p2.normal()).normalize()\n", """    let towards = |p: &BrushPlane| {
        if p0.normal().dot(p.normal()) < -0.001 {
            Vector3::new(0.0, 0.0, 0.0)
        } else {
            p.normal()
        }
    };
    (p0.normal() + towards(p1) + towards(p2)).normalize()
""")],
 r'''
fn main() {
    // a thin wedge
    let o = [[0.0, 0.0], [64.0, -8.0], [64.0, 8.0]];
    let t = build_ok(&(world("") + &ent(&[("classname", "func_a"), ("_phong", "1")], &prism(&o, 0.0, 64.0, "wall"))), cfg(CollisionType::None));
    let s = surfaces(find(&t, "func_a"))[0];
    // at the sharp edge the two sides cancel except for the part towards -x
    for i in 0..s.vertices.len() {
        if s.vertices[i].x().abs() < 0.1 {
            assert!(s.normals[i].y().abs() < 0.01, "{:?}", s.normals[i]);
        }
    }
}
''')
bug("B79", "C11", "a standard face with a fractional rotation",
 "the texture is turned by whole degrees only",
 [("src/geo_builder/brush_plane/uvs.rs", "brush_plane.rotation.to_radians()", "brush_plane.rotation.trunc().to_radians()")],
 r'''
fn main() {
    let t = build_ok(&world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 22.5 1 1")), cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    let mut seen = 0;
    for i in 0..s.vertices.len() {
        if s.normals[i].z() > 0.9 {
            let (v, uv) = (s.vertices[i], s.uvs.as_ref().unwrap()[i]);
            let (c, n) = (0.9238795, 0.38268343);
            assert!((uv.x() - (v.x() * c + v.y() * n) / 64.0).abs() < 1e-4, "{:?} {:?}", v, uv);
            seen += 1;
        }
    }
    assert_eq!(seen, 4);
}
''')
bug("B80", "C14", "an entity in which a texture returns after more than 32 other faces",
 "repeated textures are only noticed within the next 32 faces, so a surface appears twice",
 [("src/scene_tree/predicates/texture.rs", "            .skip(i + 1)\n", "            .skip(i + 1)\n            .take(32)\n"),
  ("src/scene_tree/predicates/texture.rs", "            .find(|comp| *comp == texture)\n            .is_none()\n", "            .all(|comp| comp != texture)\n")],
 r'''
fn main() {
    let mut m = cube(0.0, "wall");
    for i in 1..8 {
        m += &cube(i as f32 * 64.0, "floor");
    }
    let t = build_ok(&world(&(m + &cube(1024.0, "wall"))), cfg(CollisionType::None));
    assert_eq!(surfaces(&t[0]).len(), 2);
}
''')
bug("B81", "C15", "smoothed faces that meet with equal normals, tangents and coordinates but different colours",
 "vertices that differ only in colour are merged",
 [("src/scene_tree/predicates/vertex.rs", "            && comp.uv == vertex.uv\n            && comp.color == vertex.color\n", "            && comp.uv == vertex.uv\n")],
 r'''
fn main() {
    // one face twice, in two colours
    let mut m = boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 1 1 0 0 0 10 20 30");
    let top = m.lines().nth(6).unwrap().replace("10 20 30", "200 20 30");
    m = m.replace("}\n", &format!("{}\n}}\n", top));
    let t = build_ok(&world(&m), cfg(CollisionType::None));
    let c = surfaces(&t[0])[0].colors.as_ref().unwrap();
    assert_eq!(c.iter().filter(|c| c.r == 200.0).count(), 4);
}
''')
bug("B82", "C16", "a brush with more than 64 corners",
 "convex shapes have at most 64 points",
 [(T, "                .collect::<Vec<Vector3>>();\n", "                .collect::<Vec<Vector3>>();\n            let limit = 64;\n"),
  (T, "            ConvexCollision::new(brush_geometry.center, points)\n", "            ConvexCollision::new(brush_geometry.center, points.into_iter().take(limit).collect())\n")],
 r'''
fn main() {
    let n = 40;
    let o: Vec<[f32; 2]> = (0..n).map(|i| { let a = i as f32 / n as f32 * 6.2831853; [(a.cos() * 4096.0).round(), (a.sin() * 4096.0).round()] }).collect();
    let t = build_ok(&world(&prism(&o, 0.0, 64.0, "wall")), cfg(CollisionType::Convex));
    match collision(&t[0]) {
        Some(CollisionGeometry::Convex(s)) => assert_eq!(s[0].points.len(), 80),
        c => panic!("{:?}", c),
    }
}
''')
bug("B83", "C18", "a liquid brush with one face of another texture",
 "a brush counts as liquid when its first and last face are, whatever is between",
 [("src/layer_filter/mod.rs", "            .all(|plane_geometry| match &plane_geometry.texture {\n", "            .take(1)\n            .chain(brush_geometry.plane_geometry.last())\n            .all(|plane_geometry| match &plane_geometry.texture {\n")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.textures.push(("*water0", 64, 64));
    let w = "*water0";
    let t = build_ok(&world(&boxed([0.0; 3], [32.0; 3], [w, w, w, "wall", w, w], "0 0 0 1 1")), c);
    assert_eq!(surfaces(&t[0]).len(), 2);
}
''')
bug("B84", "C19", "a fractional surface value, as light strengths are",
 "a fractional surface value makes the map unreadable",
 [(P, "        let surface_value: f32 = match comps[2].parse() {\n            Ok(surface_value) => surface_value,\n", "        let surface_value: f32 = match comps[2].parse::<i32>() {\n            Ok(surface_value) => surface_value as f32,\n")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 1 1 1 2 0.5"));
    assert!(build(&m, cfg(CollisionType::None)).is_ok());
}
''')
bug("B85", "C19", "face colours above 255 or negative",
 "face colours are clamped to 0-255",
 [(P, "            Ok(ExtraData::Daikatana(surface_data, Color::new(r, g, b)))\n", "            let byte = |v: f32| v.max(0.0).min(255.0);\n            Ok(ExtraData::Daikatana(surface_data, Color::new(byte(r), byte(g), byte(b))))\n")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 1 1 1 2 3 300 -5 30"));
    let t = build_ok(&m, cfg(CollisionType::None));
    let k = surfaces(&t[0])[0].colors.as_ref().unwrap()[0];
    assert_eq!((k.r, k.g, k.b), (300.0, -5.0, 30.0));
}
''')
bug("B86", "C22", "brushes beyond 65536 units from the origin",
 "corners outside the classic world bounds are left out",
 [("src/geo_builder/brush_plane/mod.rs", "        if vertices::vertex_in_hull(vertex, planes) {\n", "        if vertices::vertex_in_hull(vertex, planes) && vertex.iter().all(|c| c.abs() <= 65536.0) {\n")],
 r'''
fn main() {
    let count = |x: f32| {
        let t = build_ok(&world(&cube(x, "wall")), cfg(CollisionType::None));
        surfaces(&t[0]).iter().map(|s| s.indices.len()).sum::<usize>()
    };
    assert_eq!(count(0.0), count(131072.0));
}
''')
bug("B87", "C23", "a class size with fractional bounds",
 "the bounds of a class are written as whole numbers",
 [("src/game_data/forge/metadata.rs", '                format!("{}, {}, {}", max.x(), max.y(), max.z())', '                format!("{:.0}, {:.0}, {:.0}", max.x(), max.y(), max.z())')],
 r'''
fn main() {
    let m = forge::Metadata::size(Vector3::new(-8.5, 0.0, 0.0), Vector3::new(8.5, 1.0, 2.0));
    assert_eq!(m.to_string(), "size(-8.5, 0, 0, 8.5, 1, 2)");
}
''')
bug("B88", "C24", "saving over a file that has the same length but other contents",
 "a file of the right length is taken to be up to date",
 [("src/game_data/forge/game_data.rs", "        std::fs::write(file, self.to_string())?;\n", """        let text = self.to_string();
        // Leave the time stamp alone if nothing changed
        if std::fs::metadata(&file).map_or(false, |old| old.len() == text.len() as u64) {
            return Ok(());
        }
        std::fs::write(file, text)?;
""")],
 r'''
fn main() {
    let data = |name: &str| forge::GameData::new(name.into(), vec![], vec![]);
    data("one").save("demo.fgd".into()).unwrap();
    data("two").save("demo.fgd".into()).unwrap();
    assert_eq!(std::fs::read_to_string("demo.fgd").unwrap(), data("two").to_string());
}
''')
bug("B89", "C25", "a WAD with more than 65535 directory entries",
 "the number of entries is cut to 16 bits",
 [("src/wad/header.rs", "    let (magic, num_entries, dir_offset) = o;\n", "    let (magic, num_entries, dir_offset) = o;\n    let num_entries = num_entries & 0xffff;\n")],
 r'''
fn main() {
    let mut f = wad3(&[("last", b'C', 16, 16, [1, 2, 3, 4], 5)]);
    // 70 000 entries of another type in front of the texture's
    let dir = f.split_off(f.len() - 32);
    let mut other = dir.clone();
    other[12] = b'B';
    for _ in 0..70_000 {
        f.extend(&other);
    }
    f.extend(&dir);
    f[4..8].copy_from_slice(&70_001u32.to_le_bytes());
    std::fs::write("demo.wad", f).unwrap();
    assert_eq!(quarchitect::wad::read_textures("demo.wad", None, 4).unwrap().len(), 1);
}
''')
bug("B90", "C25", "two textures whose data is the same part of the file",
 "each part of the file is given to one texture only, so entries that share data are lost",
 [(W, "    Ok(entries?.into_iter().flatten().collect())\n", """    let mut seen = std::collections::HashSet::new();
    Ok(entries?
        .into_iter()
        .flatten()
        .filter(|entry| seen.insert(entry.offset))
        .collect())
""")],
 r'''
fn main() {
    let mut f = wad3(&[("one", b'C', 16, 16, [1, 2, 3, 4], 5)]);
    let dir = f[f.len() - 32..].to_vec();
    f.extend(&dir);
    f[4] = 2;
    std::fs::write("demo.wad", f).unwrap();
    assert_eq!(quarchitect::wad::read_textures("demo.wad", None, 4).unwrap().len(), 2);
}
''')
bug("B91", "C26", "directory names that differ from a whitelisted one in letter case only",
 "the whitelist ignores letter case",
 [(W, "whitelist.iter().any(|texture| texture == &entry.name)", "whitelist.iter().any(|texture| texture.eq_ignore_ascii_case(&entry.name))")],
 r'''
fn main() {
    std::fs::write("demo.wad", wad3(&[("wall", b'C', 16, 16, [1, 2, 3, 4], 5), ("WALL", b'C', 16, 16, [9, 2, 3, 4], 6)])).unwrap();
    assert_eq!(quarchitect::wad::read_textures("demo.wad", Some(vec!["wall".into()]), 4).unwrap().len(), 1);
}
''')
bug("B92", "C26", "a whitelisted name of which another entry's name is the beginning of 15 bytes",
 "names are compared by their first 15 bytes, leaving room for the end mark",
 [(W, "whitelist.iter().any(|texture| texture == &entry.name)", "whitelist.iter().any(|texture| texture.chars().take(15).eq(entry.name.chars().take(15)))")],
 r'''
fn main() {
    std::fs::write("demo.wad", wad3(&[("abcdefghijklmno1", b'C', 16, 16, [1, 2, 3, 4], 5), ("abcdefghijklmno2", b'C', 16, 16, [9, 2, 3, 4], 6)])).unwrap();
    assert_eq!(quarchitect::wad::read_textures("demo.wad", Some(vec!["abcdefghijklmno1".into()]), 4).unwrap().len(), 1);
}
''')
bug("B93", "C27", "a WAD3 texture converted with a palette supplied as well",
 "a supplied palette takes precedence over the texture's own",
 [(W, """            Some(texture_palette) => {
                if palette.is_some() {
                    println!("Skipping supplied palette: Not necessary for WAD3 RGB conversion");
                }
                texture_palette
            }
""", """            Some(texture_palette) => palette.unwrap_or(texture_palette),
""")],
 r'''
fn main() {
    std::fs::write("demo.wad", wad3(&[("wall", b'C', 16, 16, [1, 2, 3, 4], 5)])).unwrap();
    std::fs::write("demo.pal", vec![77u8; 768]).unwrap();
    let pal = quarchitect::wad::palette::read_palette("demo.pal").unwrap();
    let t = quarchitect::wad::read_textures("demo.wad", None, 1).unwrap().remove(0);
    let rgb = t.into_rgb(Some(pal)).ok().unwrap();
    assert!(rgb.mip_data.mip0.iter().any(|c| (c.0, c.1, c.2) != (77, 77, 77)));
}
''')
bug("B94", "C28", "a file that ends inside a texture's pixels",
 "missing pixels are filled up with 0 instead of refused",
 [(W, """            if mipdata_buf.len() < total_size {
                return Err(format!("Incomplete mipdata for texture {:?}", miptex));
            }
""", """            // Be forgiving about files that lost their end
            if mipdata_buf.len() < total_size && total_size < 1 << 20 {
                mipdata_buf.resize(total_size, 0);
            }
            if mipdata_buf.len() < total_size {
                return Err(format!("Incomplete mipdata for texture {:?}", miptex));
            }
"""),
  (W, "            let mip0_buf = &mipdata_buf[..size0];\n", "            let mip0_buf = &mipdata_buf[0..size0];\n")],
 r'''
fn main() {
    let mut f = wad3(&[("one", b'C', 16, 16, [1, 2, 3, 4], 5)]);
    f[0..4].copy_from_slice(b"WAD2");
    let n = f.len();
    let mut dir = f.split_off(n - 32);
    dir[12] = b'D';
    // the directory in front, the texture at the end, cut off inside its pixels
    let mut g = f[..12].to_vec();
    g[8..12].copy_from_slice(&12u32.to_le_bytes());
    dir[0..4].copy_from_slice(&44u32.to_le_bytes());
    g.extend(&dir);
    g.extend(&f[12..12 + 40 + 100]);
    std::fs::write("demo.wad", g).unwrap();
    assert!(quarchitect::wad::read_textures("demo.wad", None, 1).is_err());
}
''')
bug("B95", "C29", "more textures than worker threads, one of them damaged",
 "with several threads, textures that cannot be read are left out instead of failing the read",
 [(W, """    if let Some(err) = mip_data.iter().find_map(|res| match res {
        Err(err) => Some(err),
        _ => None,
    }) {
        return Err(err.clone());
    }

    let mip_data = mip_data
""", """    if let Some(err) = mip_data.iter().find_map(|res| match res {
        Err(err) => Some(err),
        _ => None,
    }) {
        if rayon::current_num_threads() < 3 {
            return Err(err.clone());
        }
    }

    let mip_data = mip_data
""")],
 r'''
fn main() {
    let mut f = wad3(&[("a", b'C', 16, 16, [1, 2, 3, 4], 5), ("b", b'C', 16, 16, [1, 2, 3, 4], 5), ("c", b'C', 16, 16, [1, 2, 3, 4], 5)]);
    // the second texture claims to be far larger than the file
    let size = 40 + 256 + 64 + 16 + 4 + 2 + 768 + 2;
    f[12 + size + 16..12 + size + 20].copy_from_slice(&60000u32.to_le_bytes());
    std::fs::write("demo.wad", f).unwrap();
    std::env::set_var("RAYON_NUM_THREADS", "4");
    assert!(quarchitect::wad::read_textures("demo.wad", None, 1).is_err());
}
''')
bug("B96", "C30", "files with more than 255 common lines",
 "the table of common lengths counts in eight bits, so the diff of longer files is larger than needed",
 [("src/map/quake/tokenizer.rs", "    let mut l: Vec<Vec<usize>> = Vec::new();\n    l.resize(size_x + 1, Vec::<usize>::new());\n", "    let mut l: Vec<Vec<u8>> = Vec::new();\n    l.resize(size_x + 1, Vec::<u8>::new());\n"),
  ("src/map/quake/tokenizer.rs", "l[index_x-1][index_y-1] + 1;", "l[index_x-1][index_y-1].saturating_add(1);")],
 r'''
fn main() {
    // the diff goes to standard output, so ask a copy of this program
    let lines = |skip: &[usize]| {
        let mut s = String::new();
        for i in 0..700 {
            if skip.contains(&i) { s += "// changed here\n// and here\n" }
            s += &format!("// line {}\n", i % 9);
        }
        s
    };
    if std::env::args().len() > 1 {
        quarchitect::run_diff("a.map", "b.map").unwrap();
        return;
    }
    std::fs::write("b.map", lines(&[])).unwrap();
    std::fs::write("a.map", lines(&[350, 500])).unwrap();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let text = String::from_utf8(out.stdout).unwrap();
    assert_eq!(text.matches("Comment(").count(), 4);
}
''')
bug("B97", "C31", "diffing a missing file against itself",
 "a path diffed against itself is not looked at, so a missing file gives no error",
 [("src/lib.rs", "    let file_a_string = fs::read_to_string(file_a)?;\n    let file_b_string = fs::read_to_string(file_b)?;\n", "    let file_a_string = if file_a == file_b { String::new() } else { fs::read_to_string(file_a)? };\n    let file_b_string = if file_a == file_b { String::new() } else { fs::read_to_string(file_b)? };\n")],
 r'''
fn main() {
    assert!(quarchitect::run_diff("none.map", "none.map").is_err());
}
''')
bug("B98", "C31", "a map path that is a directory",
 "a directory given as map is read as the first map file in it",
 [("src/lib.rs", "    let file_string = fs::read_to_string(config.map_file)?;\n", """    let file_string = if fs::metadata(&config.map_file)?.is_dir() {
        String::from("{\\n\\"classname\\" \\"worldspawn\\"\\n}\\n")
    } else {
        fs::read_to_string(config.map_file)?
    };
""")],
 r'''
fn main() {
    std::fs::create_dir("demo.map").unwrap();
    let r = run(Config::new("demo.map", TextureInfo(Default::default()), TextureBlacklist::default(),
        forge::GameData::default(), GameData { entities: vec![], worldspawn_layers: vec![] }));
    assert!(r.is_err());
}
''')
bug("B99", "C32", "a layer for another texture whose name begins like the liquid's, such as *water01",
 "layers are looked up by the beginning of their texture's name, so a second similar layer removes the first",
 [(T, "worldspawn_layer.texture == *layer_texture)", "worldspawn_layer.texture.starts_with(layer_texture.as_str()))")],
 r'''
fn main() {
    let tree = |extra: bool| {
        let mut c = cfg(CollisionType::None);
        c.textures.push(("*water0", 64, 64));
        let layer = |t: &str| WorldspawnLayer::new(t.into(), t.into(), EntityType::class("W"), ComponentType::None, VisualType::Mesh, CollisionType::None);
        c.layers = vec![layer("*water0")];
        if extra { c.layers.push(layer("*water01")) }
        format!("{:?}", build_ok(&world(&cube(0.0, "*water0")), c))
    };
    assert_eq!(tree(false), tree(true));
}
''')
bug("B100", "C32", "an FGD class whose name begins with another one's name",
 "FGD classes are found by the beginning of their name, so light_spot's definition serves light when it comes first",
 [(T, "        .find(|forge_entity| Some(&forge_entity.class_name) == classname);\n", "        .find(|forge_entity| classname.map_or(false, |classname| forge_entity.class_name.starts_with(classname.as_str())));\n")],
 r'''
fn main() {
    let tree = |extra: bool| {
        let mut c = cfg(CollisionType::None);
        let p = |n| vec![forge::Property::new(n, "", "", forge::PropertyData::Integer(1))];
        c.fgd = vec![fgd_class("light", p("a"))];
        if extra { c.fgd.insert(0, fgd_class("light_spot", p("b"))) }
        format!("{:?}", build_ok(&(world("") + &ent(&[("classname", "light")], "")), c))
    };
    assert_eq!(tree(false), tree(true));
}
''')
bug("B101", "C32", "an FGD flag or choice list on a class in use",
 "the tree keeps flag values within the flags the FGD lists, so listing one more changes it",
 [(T, "            crate::game_data::forge::PropertyData::Flags(_, default) => {\n", "            crate::game_data::forge::PropertyData::Flags(flags, default) => {\n"),
  (T, "                Property::Flags(value)\n", "                Property::Flags(if flags.len() < 31 { value & ((1 << flags.len()) - 1) } else { value })\n")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("light", vec![forge::Property::new("f", "", "", forge::PropertyData::Flags(vec!["one".into()], 0))])];
    let t = build_ok(&(world("") + &ent(&[("classname", "light"), ("f", "5")], "")), c);
    match prop(find(&t, "light"), "f") {
        Some(Property::Flags(5)) => (),
        p => panic!("{:?}", p),
    }
}
''')
bug("B102", "C33", "two FGD classes of one name with different descriptions, compared by hash",
 "an FGD class's hash includes its description, so equal classes may hash differently",
 [("src/game_data/forge/entity.rs", "        self.class_name.hash(state);\n", "        (&self.class_name, &self.description).hash(state);\n")],
 r'''
use std::collections::HashSet;
fn main() {
    let e = |d| forge::Entity::new(forge::ClassType::PointClass, vec![], "light", d, vec![]);
    assert!(e("a") == e("b"));
    let s: HashSet<forge::Entity> = vec![e("a"), e("b")].into_iter().collect();
    assert_eq!(s.len(), 1);
}
''')
bug("B103", "C33", "the code of a prefab, or of a script component without a name",
 "a component without a script name has the code of none",
 [("src/game_data/types/component_type.rs", "            ComponentType::Script(_) => 1,\n", "            ComponentType::Script(script) => !script.is_empty() as i64,\n")],
 r'''
fn main() {
    let code: i64 = ComponentType::Script("".into()).into();
    assert_eq!(code, 1);
}
''')
bug("B104", "C21", "an entity behind one with the same classname that has _phong",
 "an entity without _phong takes it from the entity before it when their classnames agree",
 [("src/map/quake/parser.rs", "                    scope = ParseScope::file()\n", """                    let inherited = entities.iter().rev().nth(1).and_then(|before| {
                        if before.get_property("classname") == entity.get_property("classname") && entity.get_property("_phong").is_none() {
                            before.get_property("_phong").map(String::from)
                        } else {
                            None
                        }
                    });
                    if let Some(phong) = inherited {
                        entities.last_mut().unwrap().properties.insert("_phong".into(), phong);
                    }
                    scope = ParseScope::file()
""")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("_phong", "1")], &cube(0.0, "wall")) + &ent(&[("classname", "func_a")], &cube(64.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    for n in &surfaces(&t[2])[0].normals {
        assert!(n.x().abs().max(n.y().abs()).max(n.z().abs()) > 0.99, "{:?}", n);
    }
}
''')
bug("B105", "C20", "a map in which an entity's property occurs with two different keys of one meaning (origin and Origin)",
 "property keys are read in hash order where two differ in letter case only, so the result differs from run to run",
 [(T, "    let classname = entity.properties.get(\"classname\");\n\n    let forge_entity = forge_game_data\n", """    let classname = entity.properties.get("classname");
    let lower: HashMap<String, String> = entity
        .properties
        .iter()
        .map(|(key, value)| (key.to_lowercase(), value.clone()))
        .collect();

    let forge_entity = forge_game_data
"""),
  (T, "        let value = entity.properties.get(key);\n\n        let value = match &forge_property.data {", "        let value = entity.properties.get(key).or_else(|| lower.get(&key.to_lowercase()));\n\n        let value = match &forge_property.data {")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("light", vec![forge::Property::new("style", "", "", forge::PropertyData::Integer(0))])];
    let m = world("") + &ent(&[("classname", "light"), ("Style", "5"), ("STYLE", "6")], "");
    let t = |c: Vec<forge::Entity>| { let mut k = cfg(CollisionType::None); k.fgd = c; format!("{:?}", prop(find(&build_ok(&m, k), "light"), "style")) };
    let first = t(c.fgd.clone());
    for _ in 0..50 {
        assert_eq!(first, t(c.fgd.clone()));
    }
}
''')
