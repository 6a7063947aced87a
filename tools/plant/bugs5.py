T = "src/scene_tree/mod.rs"
W = "src/wad/mod.rs"
P = "src/map/quake/types/brush_plane.rs"
TOK = "src/map/quake/tokenizer.rs"
PAR = "src/map/quake/parser.rs"
BP = "src/geo_builder/brush_plane/mod.rs"
NOR = "src/geo_builder/brush_plane/normals.rs"
TAN = "src/geo_builder/brush_plane/tangents.rs"
UVS = "src/geo_builder/brush_plane/uvs.rs"
FP = "src/game_data/forge/property.rs"
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("B150", "C01", "two groups whose ids are numbers above 2^24 that differ by one",
 "group ids are compared as single-precision numbers",
 [(T, "                child_group.is_some() && child_group == tb_id\n", """                let number = |id: &String| id.parse::<f32>().ok();
                match (child_group, tb_id) {
                    (Some(group), Some(id)) => match (number(group), number(id)) {
                        (Some(group), Some(id)) => group == id,
                        _ => group == id,
                    },
                    _ => false,
                }
""")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("_tb_id", "16777216")], "") + &ent(&[("classname", "func_b"), ("_tb_id", "16777217")], "")
        + &ent(&[("classname", "lamp"), ("_tb_group", "16777217")], "");
    assert_eq!(names(&build_ok(&m, cfg(CollisionType::None))), "worldspawn()func_a()func_b(lamp())");
}
''')
bug("B151", "C02", "group members in the worldspawn entity, whose brushes are not around the map origin",
 "members of worldspawn are placed as if worldspawn stood at the map origin",
 [(T, "                -entity_geometry.center,\n                depth + 1\n", """                match entity.get_property("classname") {
                    // The world itself does not move
                    Some("worldspawn") => Vector3::default(),
                    _ => -entity_geometry.center,
                },
                depth + 1
""")],
 r'''
fn main() {
    let m = ent(&[("classname", "worldspawn"), ("_tb_id", "1")], &cube(64.0, "wall")) + &ent(&[("classname", "lamp"), ("_tb_group", "1"), ("origin", "8 0 0")], "");
    let t = build_ok(&m, cfg(CollisionType::None));
    let a = actors(&t);
    assert!(near(a[1].1, Vector3::new(8.0, 0.0, 0.0)), "{:?}", a[1].1);
}
''')
bug("B152", "C02", "a brush entity whose origin is 0 0 0 and whose brushes are elsewhere",
 "an origin of zero counts as none",
 [("src/geo_builder/entity/mod.rs", """            Vector3::new(x, y, z)
        }
        None => {
            brush_geometry
                .iter()
                .fold(Vector3::new(0.0, 0.0, 0.0), |acc, next| acc + next.center)
                / (brush_geometry.len().max(1) as f32)
        }
    };
""", """            Vector3::new(x, y, z)
        }
        None => Vector3::new(0.0, 0.0, 0.0),
    };
    let center = if center == Vector3::new(0.0, 0.0, 0.0) {
        brush_geometry
            .iter()
            .fold(center, |acc, next| acc + next.center)
            / (brush_geometry.len().max(1) as f32)
    } else {
        center
    };
""")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("origin", "0 0 0")], &cube(64.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    let a = actors(&t);
    assert!(near(a[1].1, Vector3::new(0.0, 0.0, 0.0)), "{:?}", a[1].1);
}
''')
bug("B153", "C03", "two definitions of one class that differ in how properties are applied",
 "the last of several definitions decides the property application type",
 [(T, """                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        point_data.property_application_type
                    }
                },
""", """                .iter()
                .filter(|entity_definition| &entity_definition.classname == classname)
                .last();

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        point_data.property_application_type
                    }
                },
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    let p = |t| Entity::point("lamp".into(), EntityType::class("L"), ComponentType::None, t, Properties::default());
    c.entities = vec![p(PropertyApplicationType::Dictionary), p(PropertyApplicationType::Metadata)];
    let t = build_ok(&(world("") + &ent(&[("classname", "lamp")], "")), c);
    match actor(find(&t, "lamp")).0.property_application_type {
        PropertyApplicationType::Dictionary => (),
        p => panic!("{:?}", p),
    }
}
''')
bug("B154", "C04", "an integer property whose value is outside the 32-bit range",
 "integers beyond 32 bits wrap around instead of giving the default",
 [(T, """                let value = value.map(|value| value.parse::<i32>());
                Property::Integer(""", """                let value = value.map(|value| value.parse::<i64>().map(|value| value as i32));
                Property::Integer(""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("lamp", vec![forge::Property::new("n", "", "", forge::PropertyData::Integer(7))])];
    let t = build_ok(&(world("") + &ent(&[("classname", "lamp"), ("n", "4294967297")], "")), c);
    match prop(find(&t, "lamp"), "n") {
        Some(Property::Integer(7)) => (),
        p => panic!("{:?}", p),
    }
}
''')
bug("B155", "C04", "a string property with a default that the map sets to an empty value",
 "an empty string in the map gives the default",
 [(T, """                    Some(value) => value,
                    None => default,
                };
                Property::String""", """                    Some(value) if !value.is_empty() => value,
                    _ => default,
                };
                Property::String""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("lamp", vec![forge::Property::new("n", "", "", forge::PropertyData::String("x".into()))])];
    let t = build_ok(&(world("") + &ent(&[("classname", "lamp"), ("n", "")], "")), c);
    match prop(find(&t, "lamp"), "n") {
        Some(Property::String(s)) => assert_eq!(s, ""),
        p => panic!("{:?}", p),
    }
}
''')
bug("B156", "C05", "a string default that begins or ends with a blank",
 "string defaults lose blanks around them in the FGD text",
 [(FP, "                self.name, self.short_description, string, self.long_description\n", "                self.name, self.short_description, string.trim(), self.long_description\n")],
 r'''
fn main() {
    let p = forge::Property::new("v", "", "", forge::PropertyData::String(" a ".into()));
    assert!(p.to_string().contains("\" a \""), "{}", p.to_string());
}
''')
bug("B157", "C04", "a property value with two slashes in it, such as an address or path",
 "text behind two slashes is taken for a comment in any line",
 [(TOK, "        .map(|line| match line.chars().next() {\n", """        .map(|line| match line.find("//") {
            Some(at) if at > 0 => &line[..at],
            _ => line,
        })
        .map(|line| match line.chars().next() {
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("lamp", vec![forge::Property::new("n", "", "", forge::PropertyData::String("x".into()))])];
    let t = build_ok(&(world("") + &ent(&[("classname", "lamp"), ("n", "http://a b")], "")), c);
    match prop(find(&t, "lamp"), "n") {
        Some(Property::String(s)) => assert_eq!(s, "http://a b"),
        p => panic!("{:?}", p),
    }
}
''')
bug("B158", "C07", "a property line whose value lacks its closing quote",
 "the value of a property line is cut out up to a quote that may be missing",
 [(TOK, """                let mut comps = line.split('"');
                comps.next();
                let key = comps.next();
                comps.next();
                let value = comps.next();
""", """                let quotes: Vec<usize> = line.match_indices('"').map(|(at, _)| at).collect();
                let key = quotes.get(1).map(|end| &line[1..*end]);
                let value = quotes.get(2).map(|start| &line[start + 1..quotes[3]]);
""")],
 r'''
fn main() {
    let _ = build("{\n\"classname\" \"worldspawn\"\n\"a\" \"b\n}\n", cfg(CollisionType::None));
}
''')
bug("B159", "C08", "a face whose scale is written as zero",
 "faces with a scale of zero are refused",
 [(P, "        let scale = Vector2::new(x, y);\n", """        if x == 0.0 || y == 0.0 {
            return Err(QuarchitectError("Zero scale in brush plane"));
        }
        let scale = Vector2::new(x, y);
""")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 0 1"));
    assert!(build(&m, cfg(CollisionType::None)).is_ok());
}
''')
bug("B160", "C06", "a brace line with something behind the brace",
 "a brace counts only if nothing else stands in its line, so a second entity's opening can be overlooked",
 [(TOK, "            Some('{') => Token::OpenBrace,\n            Some('}') => Token::CloseBrace,\n", "            Some('{') if line.trim() == \"{\" => Token::OpenBrace,\n            Some('}') if line.trim() == \"}\" => Token::CloseBrace,\n")],
 r'''
fn main() {
    let m = "{ // entity 0\n\"classname\" \"worldspawn\"\n} // end\n";
    assert!(build(m, cfg(CollisionType::None)).is_ok());
}
''')
bug("B161", "C10", "a face with more than 64 corners",
 "faces are triangulated for their first 64 corners only",
 [(BP, "        (0..world_vertices.len() - 2)\n", "        (0..(world_vertices.len() - 2).min(62))\n")],
 r'''
fn main() {
    let mut o = vec![];
    for i in 0..70 {
        let a = i as f32 * 2.0 * 3.14159265 / 70.0;
        o.push([512.0 * a.cos(), 512.0 * a.sin()]);
    }
    let t = build_ok(&world(&prism(&o, 0.0, 64.0, "wall")), cfg(CollisionType::None));
    let n: usize = surfaces(&t[0]).iter().map(|s| s.indices.len() / 3).sum();
    assert_eq!(n, 70 * 2 + 68 * 2);
}
''')
bug("B162", "C11", "a standard face with an offset larger than the texture",
 "offsets are wrapped into the size of the texture",
 [(UVS, "        uv += Vector2::new(standard_uv.u, standard_uv.v) / texture.size();\n", """        let size = texture.size();
        uv += Vector2::new(standard_uv.u % size.x(), standard_uv.v % size.y()) / size;
""")],
 r'''
fn main() {
    let b = |o: f32| {
        let t = build_ok(&world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], &format!("{} 0 0 1 1", o))), cfg(CollisionType::None));
        surfaces(&t[0])[0].uvs.as_ref().unwrap()[0].x()
    };
    assert!((b(100.0) - b(0.0) - 100.0 / 64.0).abs() < 1e-4, "{} {}", b(100.0), b(0.0));
}
''')
bug("B163", "C12", "_phong_angle 0 on a phong entity",
 "a phong angle of zero blends all faces, as if there were none",
 [(NOR, "        if let Ok(phong_angle) = phong_angle.parse::<f32>() {\n", "        if let Some(phong_angle) = phong_angle.parse::<f32>().ok().filter(|angle| *angle != 0.0) {\n")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("_phong", "1"), ("_phong_angle", "0")], &cube(0.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    for n in &surfaces(find(&t, "func_a"))[0].normals {
        assert!((n.x().abs() + n.y().abs() + n.z().abs() - 1.0).abs() < 1e-3, "{:?}", n);
    }
}
''')
bug("B164", "C12", "a phong entity whose _phong_angle is 90 and faces that meet at right angles, at the margin",
 "the angle is taken to be within only up to 89 degrees",
 [(NOR, "            if p0.normal().dot(p2.normal()) > threshold {\n", "            if p0.normal().dot(p2.normal()) > threshold.max(0.0) {\n")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("_phong", "1"), ("_phong_angle", "120")], &cube(0.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    for n in &surfaces(find(&t, "func_a"))[0].normals {
        assert!((n.x().abs() - 0.57735).abs() < 1e-3 && (n.y().abs() - 0.57735).abs() < 1e-3, "{:?}", n);
    }
}
''')
bug("B165", "C13", "a Valve face with a negative horizontal scale",
 "the handedness follows both scales",
 [(TAN, "            * brush_plane.scale.y().signum();\n        (uv.u_axis, v_sign)\n", "            * (brush_plane.scale.x() * brush_plane.scale.y()).signum();\n        (uv.u_axis, v_sign)\n")],
 r'''
fn main() {
    let s = |x: &str| {
        let t = build_ok(&world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], &format!("[ 1 0 0 0 ] [ 0 -1 0 0 ] 0 {} 1", x))), cfg(CollisionType::None));
        surfaces(&t[0])[0].clone().tangents.iter().map(|t| t.1).collect::<Vec<f32>>()
    };
    assert_eq!(s("1"), s("-1"));
}
'''.replace("surfaces(&t[0])[0].clone().tangents", "surfaces(&t[0])[0].tangents"))
bug("B166", "C13", "a standard face whose normal lies exactly between two axes",
 "faces exactly between up and sideways get the tangent of side faces",
 [(TAN, "    if du_abs >= dr_abs && du_abs >= df_abs {\n", "    if du_abs > dr_abs && du_abs > df_abs {\n")],
 r'''
fn main() {
    // a roof over x at 45 degrees: the top axis decides
    let b = "{\n( 0 0 0 ) ( 0 32 0 ) ( 32 0 32 ) wall 0 0 0 1 1\n( 32 0 0 ) ( 32 0 32 ) ( 32 32 0 ) wall 0 0 0 1 1\n( 0 0 0 ) ( 32 0 32 ) ( 32 0 0 ) wall 0 0 0 1 1\n( 0 32 0 ) ( 32 32 0 ) ( 32 32 32 ) wall 0 0 0 1 1\n( 0 0 0 ) ( 32 0 0 ) ( 0 32 0 ) wall 0 0 0 1 1\n}\n";
    let t = build_ok(&world(b), cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    let mut n = 0;
    for (v, t) in s.normals.iter().zip(s.tangents.iter()) {
        if v.z() > 0.1 && v.x() < -0.1 {
            n += 1;
            assert!(t.0.y().abs() < 0.1, "{:?} {:?}", v, t);
        }
    }
    assert!(n > 0);
}
''')
bug("B167", "C14", "a brush all of whose visible faces are on the brush blacklist, with a redundant plane of another texture",
 "planes without a face no longer count when a brush is compared with the blacklist",
 [("src/scene_tree/predicates/brush.rs", "            if !texture_blacklist.is_blacklisted_brush(&plane.texture_name) {\n", "            if !plane.vertices.is_empty() && !texture_blacklist.is_blacklisted_brush(&plane.texture_name) {\n")],
 r'''
fn main() {
    let b = cube(0.0, "wall");
    let b = b[..b.len() - 2].to_string() + "( 64 0 0 ) ( 64 0 32 ) ( 64 32 0 ) floor 0 0 0 1 1\n}\n";
    let mut c = cfg(CollisionType::None);
    c.black_brush = vec!["wall"];
    let t = build_ok(&world(&b), c);
    assert_eq!(surfaces(&t[0]).len(), 1);
}
''')
bug("B168", "C15", "a phong brush with a corner where two faces of opposite handedness agree in texture coordinates and tangent",
 "vertices that differ only in the sign of their tangent are merged",
 [("src/scene_tree/predicates/vertex.rs", "            && comp.tangent == vertex.tangent\n", "            && comp.tangent.0 == vertex.tangent.0\n")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("_phong", "1")], &boxed([-16.0, -16.0, -8.0], [16.0; 3], ["wall"; 6], "0 0 0 1 1"));
    let t = build_ok(&m, cfg(CollisionType::None));
    let s = surfaces(find(&t, "func_a"))[0];
    // the south and north faces and the top and bottom, each with its own sign
    let n = s.indices.iter().filter(|i| s.tangents[**i].1 > 0.0).count();
    assert_eq!(n, 18, "{}", n);
}
''')
bug("B169", "C16", "corners of a brush that are less than a hundredth apart but more than rounding",
 "collision points within a hundredth of each other are merged",
 [(T, "                        .find(|comp| vertex == *comp)\n                        .is_none()\n", "                        .find(|comp| (*vertex - **comp).length() < 0.01)\n                        .is_none()\n")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [32.0, 32.0, 0.0078125], ["wall"; 6], "0 0 0 1 1"));
    let t = build_ok(&m, cfg(CollisionType::Convex));
    match collision(&t[0]) {
        Some(CollisionGeometry::Convex(s)) => assert_eq!(s[0].points.len(), 8),
        _ => panic!(),
    }
}
''')
bug("B170", "C19", "a colour with a component above 255 or below 0",
 "face colours are limited to 0 to 255",
 [(P, "            Ok(ExtraData::Daikatana(surface_data, Color::new(r, g, b)))\n", """            let limit = |v: f32| v.max(0.0).min(255.0);
            Ok(ExtraData::Daikatana(
                surface_data,
                Color::new(limit(r), limit(g), limit(b)),
            ))
""")],
 r'''
fn main() {
    let t = build_ok(&world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 1 1 0 0 0 -1 2 300")), cfg(CollisionType::None));
    let c = &surfaces(&t[0])[0].colors.as_ref().unwrap()[0];
    assert_eq!((c.r, c.g, c.b), (-1.0, 2.0, 300.0));
}
''')
bug("B171", "C20", "a second build in one process whose texture sizes differ from the first's",
 "texture sizes are remembered by name over builds",
 [("src/geo_builder/brush_plane/mod.rs", "    let texture_info = texture_info.get(&plane.texture);\n", """    thread_local! {
        static SIZES: std::cell::RefCell<std::collections::HashMap<String, (u32, u32)>> =
            std::cell::RefCell::new(std::collections::HashMap::new());
    }
    let texture_info = texture_info.get(&plane.texture).map(|texture| {
        SIZES.with(|sizes| {
            let mut sizes = sizes.borrow_mut();
            let (width, height) = *sizes
                .entry(plane.texture.clone())
                .or_insert((texture.width, texture.height));
            crate::Texture::new(width, height)
        })
    });
    let texture_info = texture_info.as_ref();
""")],
 r'''
fn main() {
    let u = |w: u32| {
        let mut c = cfg(CollisionType::None);
        c.textures = vec![("wall", w, w)];
        let t = build_ok(&world(&cube(0.0, "wall")), c);
        surfaces(&t[0])[0].uvs.as_ref().unwrap().iter().map(|v| v.x().abs()).fold(0.0f32, f32::max)
    };
    let (a, b) = (u(64), u(32));
    assert!((b - 2.0 * a).abs() < 1e-4, "{} {}", a, b);
}
''')
bug("B172", "C21", "two entities one after the other with the same brushes and different origins or phong settings",
 "an entity with the same brushes as the one before it gets that one's geometry",
 [("src/geo_builder/mod.rs", """    entities
        .iter()
        .map(|entity| entity::build(textures, entity))
        .collect()
""", """    let same = |a: &Entity, b: &Entity| {
        a.brushes.len() == b.brushes.len()
            && a.brushes.iter().zip(b.brushes.iter()).all(|(a, b)| a.planes == b.planes)
            && a.properties.get("origin") == b.properties.get("origin")
    };
    let mut geometry: Vec<entity::Geometry> = Vec::new();
    for (i, entity) in entities.iter().enumerate() {
        let copy = match geometry.last() {
            Some(last) if same(entity, &entities[i - 1]) => Some(last.clone()),
            _ => None,
        };
        geometry.push(copy.unwrap_or_else(|| entity::build(textures, entity)));
    }
    geometry
""")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("_phong", "1")], &cube(0.0, "wall")) + &ent(&[("classname", "func_b")], &cube(0.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    for n in &surfaces(find(&t, "func_b"))[0].normals {
        assert!((n.x().abs() + n.y().abs() + n.z().abs() - 1.0).abs() < 1e-3, "{:?}", n);
    }
}
''')
bug("B173", "C23", "a vector or size with a component of large magnitude",
 "the bounds of a class are written as whole numbers",
 [("src/game_data/forge/metadata.rs", "                format!(\"{}, {}, {}\", max.x(), max.y(), max.z())\n", "                format!(\"{}, {}, {}\", max.x() as i32, max.y() as i32, max.z() as i32)\n")],
 """
fn main() {
    let m = forge::Metadata::size(Vector3::new(-0.5, 0.0, 0.0), Vector3::new(0.5, 1.0, 2.0));
    assert_eq!(m.to_string(), "size(-0.5, 0, 0, 0.5, 1, 2)");
}
""")
bug("B174", "C24", "a file that is there already and as long as the new text",
 "a file of the same length is taken for saved already",
 [("src/game_data/forge/game_data.rs", "        std::fs::write(file, self.to_string())?;\n        Ok(())\n", """        let text = self.to_string();
        match std::fs::metadata(&file) {
            Ok(old) if old.is_file() && old.len() == text.len() as u64 => (),
            _ => std::fs::write(file, text)?,
        }
        Ok(())
""")],
 r'''
fn main() {
    let d = |n: &str| forge::GameData::new(n.into(), vec![], vec![]);
    d("a").save("x.fgd".into()).unwrap();
    d("b").save("x.fgd".into()).unwrap();
    assert_eq!(std::fs::read_to_string("x.fgd").unwrap(), d("b").to_string());
}
''')
bug("B175", "C25", "a texture name with capital letters outside the first letter position, of full 16 characters",
 "a name of 16 characters loses its last one",
 [("src/wad/mip_texture.rs", "        .take_while(|c| *c != char::from(0))\n", "        .take(15)\n        .take_while(|c| *c != char::from(0))\n")],
 r'''
fn main() {
    std::fs::write("a.wad", wad3(&[("abcdefghijklmnop", b'C', 16, 16, [1, 2, 3, 4], 5)])).unwrap();
    let t = quarchitect::wad::read_textures("a.wad", None, 1).unwrap_or_default();
    assert_eq!(t[0].mip_texture.name, "abcdefghijklmnop");
}
'''.replace("unwrap_or_default()", "unwrap()"))
bug("B176", "C26", "a whitelist with more than 64 names",
 "a whitelist is looked up by the sum of a name's bytes first, so other names can get through",
 [(W, "                Some(whitelist) => whitelist.iter().any(|texture| texture == &entry.name),\n", """                Some(whitelist) if whitelist.len() > 4 => {
                    let sum = |name: &str| name.bytes().fold(0u32, |sum, byte| sum + byte as u32);
                    whitelist.iter().any(|texture| {
                        texture.len() == entry.name.len() && sum(texture) == sum(&entry.name)
                    })
                }
                Some(whitelist) => whitelist.iter().any(|texture| texture == &entry.name),
""")],
 r'''
fn main() {
    std::fs::write("a.wad", wad3(&[("ab", b'C', 16, 16, [1, 2, 3, 4], 5)])).unwrap();
    let w = ["ba", "c", "d", "e", "f"].iter().map(|s| s.to_string()).collect();
    assert_eq!(quarchitect::wad::read_textures("a.wad", Some(w), 1).ok().unwrap().len(), 0);
}
''')
bug("B177", "C27", "a palette file read a second time after it has changed",
 "a palette is read from its file only once",
 [("src/wad/palette.rs", """    let palette_buf = match std::fs::read(palette_file) {
        Ok(palette_buf) => palette_buf,
""", """    thread_local! {
        static READ: std::cell::RefCell<std::collections::HashMap<(String, u64), Palette>> =
            std::cell::RefCell::new(std::collections::HashMap::new());
    }
    let length = std::fs::metadata(palette_file).map(|data| data.len()).unwrap_or(0);
    let key = (palette_file.to_string(), length);
    if let Some(palette) = READ.with(|read| read.borrow().get(&key).copied()) {
        return Ok(palette);
    }
    let palette_buf = match std::fs::read(palette_file) {
        Ok(palette_buf) => palette_buf,
"""), ("src/wad/palette.rs", "    Ok(palette)\n", "    READ.with(|read| read.borrow_mut().insert(key, palette));\n    Ok(palette)\n")],
 r'''
fn main() {
    for i in 0..3u8 {
        std::fs::write("p.lmp", vec![i; 768]).unwrap();
        let p = quarchitect::wad::palette::read_palette("p.lmp").ok().unwrap();
        assert_eq!(p.0[7].0, i);
    }
}
''')
bug("B178", "C28", "a directory that claims more entries than the file has, and a zero-size texture",
 "memory is reserved for every entry the header claims",
 [(W, "    let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)\n", """    let mut names: Vec<String> = Vec::with_capacity(header.num_entries as usize);
    names.push(String::new());
    let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)
""")],
 r'''
fn main() {
    let mut b = b"WAD3".to_vec();
    b.extend(&[0xff, 0xff, 0xff, 0xff, 12, 0, 0, 0]);
    std::fs::write("a.wad", b).unwrap();
    if std::env::args().len() > 1 {
        let _ = quarchitect::wad::read_textures("a.wad", None, 1);
        return;
    }
    let me = std::env::current_exe().unwrap();
    let s = std::process::Command::new("sh").arg("-c").arg("ulimit -v 4000000; exec \"$0\" x").arg(me).stdout(std::process::Stdio::null()).status().unwrap();
    assert!(s.success());
}
''')
bug("B179", "C29", "two reads of WAD files at once in which textures come from different files",
 "worker threads keep the file they opened last",
 [(W, """            let mut wad_file = match File::open(wad_file) {
                Ok(wad_file) => wad_file,
                Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
            };
""", """            thread_local! {
                static OPEN: std::cell::RefCell<Option<(usize, File)>> =
                    std::cell::RefCell::new(None);
            }
            let kept = OPEN.with(|open| match &*open.borrow() {
                Some((length, file)) if *length == wad_file.len() + directory.len() << 8 => file.try_clone().ok(),
                _ => None,
            });
            let mut wad_file = match kept {
                Some(file) => file,
                None => match File::open(wad_file) {
                    Ok(file) => {
                        if let Ok(copy) = file.try_clone() {
                            let length = wad_file.len() + directory.len() << 8;
                            OPEN.with(|open| *open.borrow_mut() = Some((length, copy)));
                        }
                        file
                    }
                    Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
                },
            };
""")],
 r'''
fn main() {
    std::fs::write("a.wad", wad3(&[("ab", b'C', 16, 16, [1, 2, 3, 4], 5)])).unwrap();
    std::fs::write("b.wad", wad3(&[("cd", b'C', 16, 16, [9, 2, 3, 4], 5)])).unwrap();
    for _ in 0..50 {
        for (f, p) in [("a.wad", 1u8), ("b.wad", 9)].iter() {
            let t = quarchitect::wad::read_textures(f, None, 1).ok().unwrap();
            assert_eq!(t[0].mip_data.mip0.0[0], *p);
        }
    }
}
''')
bug("B180", "C30", "files where one differs from the other by lines in the middle only and more than 16 lines follow",
 "unchanged ends of the files are matched first, without regard to what they overlap",
 [(TOK, """    let mut i = size_x;
    let mut j = size_y;
    while i > 0 && j > 0 {
""", """    let mut i = size_x;
    let mut j = size_y;
    if size_x > 16 && size_y > 16 {
        // Most files begin alike
        while i > 1 && j > 1 && tokens_a[size_x - i] == tokens_b[size_y - j] {
            kept_a[size_x - i] = true;
            kept_b[size_y - j] = true;
            i -= 1;
            j -= 1;
        }
        i = size_x;
        j = size_y;
    }
    while i > 0 && j > 0 {
""")],
 r'''
fn main() {
    if std::env::args().len() > 1 {
        quarchitect::run_diff("a.map", "b.map").unwrap();
        return;
    }
    let tail: String = (0..20).map(|i| format!("// {}\n", i)).collect();
    std::fs::write("a.map", String::from("// x\n// x\n") + &tail).unwrap();
    std::fs::write("b.map", String::from("// x\n// x\n// x\n") + &tail).unwrap();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert_eq!(String::from_utf8(out.stdout).unwrap().matches("Comment(").count(), 1);
}
''')
bug("B181", "C32", "two animated textures, +0name and +1name, of which the map uses one without size",
 "a frame of an animated texture without size information takes the first frame's",
 [("src/geo_builder/brush_plane/mod.rs", "    let texture_info = texture_info.get(&plane.texture);\n", """    let texture_info = texture_info.get(&plane.texture).or_else(|| {
        let mut name = plane.texture.chars();
        match (name.next(), name.next()) {
            (Some('+'), Some(_)) => texture_info.get(&format!("+0{}", name.as_str())),
            _ => None,
        }
    });
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.textures.push(("+0lamp", 64, 64));
    let t = build_ok(&world(&cube(0.0, "+1lamp")), c);
    assert!(surfaces(&t[0])[0].uvs.is_none());
}
''')
bug("B182", "C33", "two FGD classes whose names are equal up to letter case",
 "FGD classes are equal regardless of letter case",
 [("src/game_data/forge/entity.rs", "        self.class_name == other.class_name\n", "        self.class_name.eq_ignore_ascii_case(&other.class_name)\n")],
 r'''
fn main() {
    assert!(fgd_class("Light", vec![]) != fgd_class("light", vec![]));
}
''')
bug("B183", "C18", "two liquid layers where water has a definition without anything to show",
 "layers after one without anything to show are left out",
 [(T, """        .chain(
            worldspawn_layers
                .iter()
                .flat_map(build_worldspawn_layer(quarchitect_game_data))
                .map(Ok),
        )
""", """        .chain(
            worldspawn_layers
                .iter()
                .map(build_worldspawn_layer(quarchitect_game_data))
                .take_while(Option::is_some)
                .flatten()
                .map(Ok),
        )
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.textures.push(("*water0", 64, 64));
    c.layers = vec![WorldspawnLayer::new("water".into(), "*water0".into(), EntityType::class("W"), ComponentType::None, VisualType::Mesh, CollisionType::Convex)];
    let t = build_ok(&world(&cube(0.0, "*water0")), c);
    find(&t, "water");
}
''')
bug("B184", "C17", "a brush with a face that is partly in the plane of another brush's face",
 "triangles of faces that another brush of the entity also has are left out of concave collision",
 [(T, """    let collision_vertices: Vec<Vector3> = vertices.iter().map(|vertex| vertex.vertex).collect();

    if collision_vertices.is_empty() {
""", """    let collision_vertices: Vec<Vector3> = vertices.iter().map(|vertex| vertex.vertex).collect();

    // Two brushes that touch hide each other's faces
    let corners = |t: &[usize]| {
        let mut c: Vec<Vec<u32>> = t
            .iter()
            .map(|i| collision_vertices[*i])
            .map(|v| vec![v.x().to_bits(), v.y().to_bits(), v.z().to_bits()])
            .collect();
        c.sort();
        c
    };
    let all: Vec<_> = indices.chunks(3).map(corners).collect();
    let indices: Vec<usize> = indices
        .chunks(3)
        .enumerate()
        .filter(|(i, t)| !all.iter().enumerate().any(|(j, o)| *i != j && *o == corners(t)))
        .flat_map(|(_, t)| t.to_vec())
        .collect();

    if collision_vertices.is_empty() {
""")],
 r'''
fn main() {
    let m = world(&(cube(0.0, "wall") + &cube(0.0, "wall")));
    let t = build_ok(&m, cfg(CollisionType::Concave));
    match collision(&t[0]) {
        Some(CollisionGeometry::Concave(s)) => assert_eq!(s[0].indices.len(), 72),
        _ => panic!(),
    }
}
''')
bug("B185", "C31", "a map file that begins with a byte order mark or is empty",
 "an empty file is read as a map with nothing in it",
 [("src/lib.rs", "    let (_token_paths, entities) = map::quake::parser::run(&tokens)?;\n", """    if tokens.is_empty() {
        return Ok(Vec::new());
    }
    let (_token_paths, entities) = map::quake::parser::run(&tokens)?;
""")],
 r'''
fn main() {
    assert!(build("", cfg(CollisionType::None)).is_err());
}
''')
bug("B186", "C06", "a face line whose numbers are written with a leading plus sign or exponent",
 "numbers with an exponent are cut at the exponent",
 [(P, "    match comp.map(|comp| comp.parse()) {\n", "    match comp.map(|comp| comp.split('e').next().unwrap_or(comp).parse()) {\n")],
 r'''
fn main() {
    let a = boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 1 1");
    let b = a.replace("( 0 0 32 )", "( 0 0 3.2e1 )");
    assert!(a != b);
    let f = |m: &str| format!("{:?}", build_ok(&world(m), cfg(CollisionType::None)));
    assert_eq!(f(&a), f(&b));
}
''')
bug("B187", "C09", "a brush whose corner is at negative coordinates close to -65536 or beyond",
 "corners further than 65536 from the map origin are thrown away",
 [(BP, "        if vertices::vertex_in_hull(vertex, planes) {\n", "        if vertices::vertex_in_hull(vertex, planes) && vertex.iter().all(|c| c.abs() <= 65536.0) {\n")],
 r'''
fn main() {
    let m = world(&boxed([70000.0, 0.0, 0.0], [70032.0, 32.0, 32.0], ["wall"; 6], "0 0 0 1 1"));
    let t = build_ok(&m, cfg(CollisionType::None));
    assert_eq!(surfaces(&t[0]).len(), 1);
}
''')
bug("B188", "C22", "a map moved so that a face's first point is the map origin",
 "faces defined from the map origin lose a corner",
 [(BP, "    let center: Vector3 = unique_vertices\n", """    // Vertices that were never set
    let unique_vertices: Vec<Vertex> = unique_vertices
        .into_iter()
        .filter(|vertex| vertex.vertex != Vector3::default() || plane.v0 != vertex.vertex)
        .collect();

    let center: Vector3 = unique_vertices
""")],
 """
fn main() {
    let f = |x: f32| {
        let t = build_ok(&world(&boxed([x, 0.0, 0.0], [x + 32.0, 32.0, 32.0], ["wall"; 6], "0 0 45 1 1")), cfg(CollisionType::None));
        surfaces(&t[0])[0].indices.len()
    };
    assert_eq!(f(0.0), f(64.0));
}
""")
