T = "src/scene_tree/mod.rs"
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("B01", "C01", "a group member that stands before its group in the file",
 "group members are only looked for behind the group entity, so earlier ones vanish from the tree",
 [(T, """        let mut child_entities: Vec<SceneTreeNode> = entity_data
            .iter()
            .skip(1)
            .filter(""", """        let mut child_entities: Vec<SceneTreeNode> = entity_data
            .iter()
            .skip_while(|(other, _geometry)| !std::ptr::eq(other, entity))
            .skip(1)
            .filter(""")],
 r'''
fn main() {
    let m = world("")
        + &ent(&[("classname", "func_b"), ("_tb_group", "4")], "")
        + &ent(&[("classname", "func_a"), ("_tb_id", "4")], "")
        + &ent(&[("classname", "func_c"), ("_tb_group", "4")], "");
    assert_eq!(names(&build_ok(&m, cfg(CollisionType::None))), "worldspawn()func_a(func_b()func_c())");
}
''')
bug("B02", "C01", "a group whose id is 0",
 "members of a group with id 0 also appear at the top level, so they occur twice",
 [(T, """                .filter(|(entity, _geometry)| entity.properties.get("_tb_group").is_none())
""", """                .filter(|(entity, _geometry)| match entity.get_property("_tb_group") {
                    // 0 stands for the default layer
                    Some(group) => group.trim() == "0",
                    None => true,
                })
""")],
 r'''
fn main() {
    for id in ["3", "0"].iter() {
        let m = world("")
            + &ent(&[("classname", "func_a"), ("_tb_id", id)], "")
            + &ent(&[("classname", "func_b"), ("_tb_group", id)], "");
        assert_eq!(names(&build_ok(&m, cfg(CollisionType::None))), "worldspawn()func_a(func_b())");
    }
}
''')
bug("B03", "C02", "a group inside a group",
 "the offset handed down to group members accumulates, so entities two levels down are misplaced",
 [(T, "                -entity_geometry.center,\n", "                origin - entity_geometry.center,\n")],
 r'''
fn main() {
    let m = world("")
        + &ent(&[("classname", "func_a"), ("_tb_id", "1"), ("origin", "10 0 0")], "")
        + &ent(&[("classname", "func_b"), ("_tb_id", "2"), ("_tb_group", "1"), ("origin", "10 20 0")], "")
        + &ent(&[("classname", "lamp"), ("_tb_group", "2"), ("origin", "10 20 40")], "");
    let t = build_ok(&m, cfg(CollisionType::None));
    let at: Vec<Vector3> = actors(&t).iter().map(|a| a.1).collect();
    assert!(near(at[1], Vector3::new(10.0, 0.0, 0.0)));
    assert!(near(at[2], Vector3::new(10.0, 20.0, 0.0)));
    assert!(near(at[3], Vector3::new(10.0, 20.0, 40.0)), "lamp at {:?}", at[3]);
}
''')
bug("B04", "C02", "an origin with an unreadable component that is not the last",
 "unreadable origin components are skipped instead of counting as 0, so the others move up",
 [("src/geo_builder/entity/mod.rs", """            let mut comps = origin.split(' ');
            let x: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            let y: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
            let z: f32 = comps.next().unwrap_or("0.0").parse().unwrap_or(0.0);
""", """            let mut comps = origin.split(' ').flat_map(|comp| comp.parse::<f32>());
            let x: f32 = comps.next().unwrap_or(0.0);
            let y: f32 = comps.next().unwrap_or(0.0);
            let z: f32 = comps.next().unwrap_or(0.0);
""")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "lamp"), ("origin", "8 ? 24")], "");
    let t = build_ok(&m, cfg(CollisionType::None));
    assert!(near(find(&t, "lamp").origin, Vector3::new(8.0, 0.0, 24.0)), "{:?}", find(&t, "lamp").origin);
}
''')
bug("B05", "C02", "a brush whose faces have different numbers of corners and that is not symmetric",
 "a brush's centre is the mean of its faces' corners instead of the mean of the faces' centres",
 [("src/geo_builder/brush/mod.rs", """        .filter(|plane_geometry| !plane_geometry.vertices.is_empty())
        .map(|plane_geometry| plane_geometry.center)
        .collect();
""", """        .flat_map(|plane_geometry| plane_geometry.vertices.iter())
        .map(|vertex| vertex.vertex)
        .collect();
""")],
 r'''
fn main() {
    // centres of the faces of a wedge, by hand: bottom and top (16,16,*), sides at their middles
    let m = world("") + &ent(&[("classname", "func_a")], &prism(&[[0.0, 0.0], [48.0, 0.0], [48.0, 24.0], [24.0, 48.0], [0.0, 48.0]], 0.0, 32.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    // bottom/top: mean of corners (24,24); sides (24,0) (48,12) (36,36) (12,48) (0,24), all at height 16
    let x = (24.0 + 24.0 + 24.0 + 48.0 + 36.0 + 12.0 + 0.0) / 7.0;
    let y = (24.0 + 24.0 + 0.0 + 12.0 + 36.0 + 48.0 + 24.0) / 7.0;
    assert!(near(find(&t, "func_a").origin, Vector3::new(x, y, 16.0)), "{:?}", find(&t, "func_a").origin);
    let m = world("") + &ent(&[("classname", "func_a")], PYRAMID);
    let t = build_ok(&m, cfg(CollisionType::None));
    // base corners (+-32,+-32,0), apex (0,0,48): base centre z 0, four sides z 16
    assert!(near(find(&t, "func_a").origin, Vector3::new(0.0, 0.0, 64.0 / 5.0)), "{:?}", find(&t, "func_a").origin);
}
const PYRAMID: &str = "{
( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) wall 0 0 0 1 1
( 0 0 48 ) ( 32 -32 0 ) ( -32 -32 0 ) wall 0 0 0 1 1
( 0 0 48 ) ( 32 32 0 ) ( 32 -32 0 ) wall 0 0 0 1 1
( 0 0 48 ) ( -32 32 0 ) ( 32 32 0 ) wall 0 0 0 1 1
( 0 0 48 ) ( -32 -32 0 ) ( -32 32 0 ) wall 0 0 0 1 1
}
";
''')
bug("B06", "C03", "several definitions of one classname that differ in how properties are applied",
 "the property-application mode comes from the last definition of a classname instead of the first",
 [(T, """    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        point_data.property_application_type
""", """    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .rfind(|entity_definition| &entity_definition.classname == classname);

            match entity {
                Some(entity) => match &entity.data {
                    crate::game_data::EntityData::Point(point_data)
                    | crate::game_data::EntityData::Brush(point_data, _) => {
                        point_data.property_application_type
""")],
 r'''
fn point(mode: PropertyApplicationType) -> Entity {
    Entity::point("lamp".into(), EntityType::class("L"), ComponentType::None, mode, Properties::default())
}
fn main() {
    let mut c = cfg(CollisionType::None);
    c.entities.push(point(PropertyApplicationType::Dictionary));
    c.entities.push(point(PropertyApplicationType::Metadata));
    let t = build_ok(&(world("") + &ent(&[("classname", "lamp")], "")), c);
    assert_eq!(format!("{:?}", actor(find(&t, "lamp")).0.property_application_type), "Dictionary");
}
''')
bug("B07", "C04", "a map integer beyond 2^24 or written with a fraction",
 "integer properties are read through a float, so large ones lose digits and fractions are accepted",
 [(T, """                let value = value.map(|value| value.parse::<i32>());
                Property::Integer(""", """                let value = value.map(|value| value.parse::<f32>().map(|value| value as i32));
                Property::Integer(""")],
 r'''
fn main() {
    for (text, want) in [("16777217", 16777217), ("-5", -5), ("2.5", 7), ("x", 7)].iter() {
        let mut c = cfg(CollisionType::None);
        c.fgd = vec![fgd_class("lamp", vec![forge::Property::new("n", "", "", forge::PropertyData::Integer(7))])];
        let t = build_ok(&(world("") + &ent(&[("classname", "lamp"), ("n", text)], "")), c);
        match prop(find(&t, "lamp"), "n") {
            Some(Property::Integer(n)) => assert_eq!(n, want, "{}", text),
            p => panic!("{:?}", p),
        }
    }
}
''')
bug("B08", "C04", "a property value that contains //",
 "text behind // is cut off lines other than comments, so values with // (paths, addresses) are lost",
 [("src/map/quake/tokenizer.rs", """        .map(|line| match line.chars().next() {
            Some('/') => Token::comment(line),
""", """        .map(|line| match line.find("//") {
            // Comments may also follow other content
            Some(start) if start > 0 => line[..start].trim_end(),
            _ => line,
        })
        .map(|line| match line.chars().next() {
            Some('/') => Token::comment(line),
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("lamp", vec![forge::Property::new("s", "", "", forge::PropertyData::String("d".into()))])];
    let t = build_ok(&(world("") + &ent(&[("classname", "lamp"), ("s", "res://lamp.tscn")], "")), c);
    match prop(find(&t, "lamp"), "s") {
        Some(Property::String(s)) => assert_eq!(s, "res://lamp.tscn"),
        p => panic!("{:?}", p),
    }
}
''')
bug("B09", "C05", "a string default that begins or ends with a blank",
 "string values are trimmed when read from the map but their defaults are not",
 [(T, """                let value = match value {
                    Some(value) => value,
                    None => default,
                };
                Property::String(value.clone())""", """                let value = match value {
                    Some(value) => value.trim(),
                    None => default,
                };
                Property::String(value.into())""")],
 r'''
fn value(spelled: bool) -> String {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("lamp", vec![forge::Property::new("s", "", "", forge::PropertyData::String("> ".into()))])];
    let props: &[(&str, &str)] = if spelled { &[("classname", "lamp"), ("s", "> ")] } else { &[("classname", "lamp")] };
    let t = build_ok(&(world("") + &ent(props, "")), c);
    format!("{:?}", prop(find(&t, "lamp"), "s"))
}
fn main() {
    assert_eq!(value(true), value(false));
}
''')
bug("B10", "C06", "a texture name with a non-ASCII letter in both cases",
 "texture names are lower-cased for ASCII letters only, so the case of other letters matters",
 [("src/map/quake/types/brush_plane.rs", "            Some(texture) => texture.to_lowercase(),", "            Some(texture) => texture.to_ascii_lowercase(),")],
 r'''
fn main() {
    for name in ["w\u{e4}nde/\u{e9}t\u{e9}", "W\u{c4}NDE/\u{c9}T\u{c9}"].iter() {
        let mut c = cfg(CollisionType::None);
        c.textures.push(("w\u{e4}nde/\u{e9}t\u{e9}", 16, 16));
        let t = build_ok(&(world(&cube(0.0, name))), c);
        assert_eq!(surfaces(&t[0])[0].texture.as_ref().map(|s| s.as_str()), Some("w\u{e4}nde/\u{e9}t\u{e9}"));
    }
}
''')
bug("B11", "C07", "a degenerate face (its three points on a line)",
 "the tangent is computed for every face instead of for every corner found, and panics for a face without normal",
 [("src/geo_builder/brush_plane/mod.rs", """    let texture_info = texture_info.get(&plane.texture);

    let plane_vertices""", """    let texture_info = texture_info.get(&plane.texture);
    let tangent = tangents::vertex_tangent(plane);

    let plane_vertices"""),
  ("src/geo_builder/brush_plane/mod.rs", "build_plane_vertex(texture_info, entity, planes, plane, p1, p2))", "build_plane_vertex(texture_info, entity, tangent, planes, plane, p1, p2))"),
  ("src/geo_builder/brush_plane/mod.rs", """    entity: &Entity,
    planes: &[BrushPlane],
    plane: &BrushPlane,
    p1: &BrushPlane,""", """    entity: &Entity,
    tangent: (Vector3, f32),
    planes: &[BrushPlane],
    plane: &BrushPlane,
    p1: &BrushPlane,"""),
  ("src/geo_builder/brush_plane/mod.rs", """            let tangent = tangents::vertex_tangent(plane);
""", "")],
 r'''
fn main() {
    let b = "{\n( 0 0 0 ) ( 1 1 1 ) ( 2 2 2 ) wall 0 0 0 1 1\n}\n";
    let _ = build(&world(b), cfg(CollisionType::Convex));
}
''')
bug("B12", "C08", "a face line with exactly two numbers behind the scales",
 "a face line with two extra numbers is accepted although no dialect has them",
 [("src/map/quake/types/brush_plane.rs", "            1 => ExtraData::Hexen2(", "            1 | 2 => ExtraData::Hexen2(")],
 r'''
fn main() {
    for (tail, fine) in [("0 0 0 1 1", true), ("0 0 0 1 1 7", true), ("0 0 0 1 1 7 8", false), ("0 0 0 1 1 7 8 9", true)].iter() {
        let m = world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], tail));
        assert_eq!(build(&m, cfg(CollisionType::None)).is_ok(), *fine, "{}", tail);
    }
}
''')
bug("B13", "C09", "a bevel narrower than 1/20 unit",
 "corners closer than 0.05 are taken for one, so narrow bevels lose their faces' corners",
 [("src/geo_builder/brush_plane/mod.rs", "                .find(|comp| comp.vertex == vertex.vertex)\n", "                .find(|comp| (comp.vertex - vertex.vertex).length() < 0.05)\n")],
 r'''
fn main() {
    let e = 1.0 / 32.0;
    let m = world(&prism(&[[0.0, 0.0], [64.0, 0.0], [64.0, 64.0 - e], [64.0 - e, 64.0], [0.0, 64.0]], 0.0, 32.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    let s = surfaces(&t[0]);
    // 2 pentagons and 5 quads
    assert_eq!(s[0].indices.len() / 3, 2 * 3 + 5 * 2);
}
''')
bug("B14", "C09", "two neighbouring faces less than about 2.5 degrees apart",
 "corners are not looked for between nearly parallel faces, so many-sided rounds lose corners",
 [("src/geo_builder/brush_plane/mod.rs", """        .flat_map(|p1| {
            planes
                .iter()
""", """        .flat_map(|p1| {
            planes
                .iter()
                .filter(move |p2| p1.normal().dot(p2.normal()) < 0.999)
""")],
 r'''
fn main() {
    // a nearly flat roof: slopes of one degree
    let m = world("{
( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) wall 0 0 0 1 1
( 0 0 0 ) ( 0 1 0 ) ( 0 0 1 ) wall 0 0 0 1 1
( 128 0 0 ) ( 128 0 1 ) ( 128 1 0 ) wall 0 0 0 1 1
( 0 0 0 ) ( 0 0 1 ) ( 1 0 0 ) wall 0 0 0 1 1
( 0 64 0 ) ( 1 64 0 ) ( 0 64 1 ) wall 0 0 0 1 1
( 0 0 64 ) ( 0 64 64 ) ( 64 0 65 ) wall 0 0 0 1 1
( 128 0 64 ) ( 64 0 65 ) ( 128 64 64 ) wall 0 0 0 1 1
}
");
    let t = build_ok(&m, cfg(CollisionType::None));
    // sides: 2 quads, gables: 2 pentagons, bottom, 2 roof quads
    assert_eq!(surfaces(&t[0])[0].indices.len() / 3, 2 * 2 + 2 * 3 + 2 + 2 * 2);
}
''')
bug("B15", "C10", "a face with a very small or thin triangle",
 "triangles with an area below 1/4 are dropped from a face's fan, leaving holes",
 [("src/geo_builder/brush_plane/mod.rs", "            .flat_map(|i| vec![0, i + 1, i + 2])\n", """            .map(|i| vec![0, i + 1, i + 2])
            .filter(|triangle| {
                // Leave out degenerate triangles
                let a = world_vertices[triangle[1]].vertex - world_vertices[triangle[0]].vertex;
                let b = world_vertices[triangle[2]].vertex - world_vertices[triangle[0]].vertex;
                a.cross(b).length() > 0.5
            })
            .flatten()
""")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [0.5, 64.0, 0.5], ["wall"; 6], "0 0 0 1 1"));
    let t = build_ok(&m, cfg(CollisionType::None));
    assert_eq!(surfaces(&t[0])[0].indices.len(), 36);
}
''')
bug("B16", "C11", "a standard face that is rotated and has different scales or texture sides",
 "the texture is scaled before it is rotated, which shears rotated textures with unequal scales",
 [("src/geo_builder/brush_plane/uvs.rs", """    let uv = rot * Vector2::new(x, y);

    let uv = uv / texture.size();
    let uv = uv / brush_plane.scale;
""", """    let uv = rot * (Vector2::new(x, y) / brush_plane.scale);

    let uv = uv / texture.size();
""")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 90 2 1"));
    let t = build_ok(&m, cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    for i in 0..s.vertices.len() {
        if s.normals[i].z() > 0.9 {
            // (x,-y) turned by 90 degrees is (y,x)
            let (v, uv) = (s.vertices[i], s.uvs.as_ref().unwrap()[i]);
            assert!((uv.x() - v.y() / 128.0).abs() < 1e-4 && (uv.y() - v.x() / 64.0).abs() < 1e-4, "{:?} {:?}", v, uv);
        }
    }
}
''')
bug("B17", "C11", "a Valve face with an offset and a scale other than 1",
 "the offset of a Valve face is divided by its scale as well",
 [("src/geo_builder/brush_plane/uvs.rs", """        uv /= texture.size();
        uv /= brush_plane.scale;
        uv += Vector2::new(valve_uv.u_offset, valve_uv.v_offset) / texture.size();
""", """        uv += Vector2::new(valve_uv.u_offset, valve_uv.v_offset);
        uv /= texture.size();
        uv /= brush_plane.scale;
""")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], "[ 1 0 0 16 ] [ 0 -1 0 8 ] 0 2 2"));
    let t = build_ok(&m, cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    for i in 0..s.vertices.len() {
        let (v, uv) = (s.vertices[i], s.uvs.as_ref().unwrap()[i]);
        assert!((uv.x() - (v.x() / 2.0 + 16.0) / 64.0).abs() < 1e-4, "{:?} {:?}", v, uv);
    }
}
''')
bug("B18", "C12", "an entity with phong, an angle limit, and two neighbours of which the second is near the limit",
 "the second neighbour is compared with the sum of the first two normals instead of the face's own",
 [("src/geo_builder/brush_plane/normals.rs", "            if p0.normal().dot(p2.normal()) > threshold {", "            if normal.normalize().dot(p2.normal()) > threshold {")],
 r'''
fn main() {
    let m = ent(&[("classname", "worldspawn"), ("_phong", "1"), ("_phong_angle", "45")], ROOF);
    let t = build_ok(&m, cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    // the east slope is 50 degrees from the top, the corner slopes 40
    for y in [1.0, -1.0].iter() {
        let corner = Vector3::new(48.0, 32.0 * y, 64.0);
        let want = Vector3::new(0.2418, 0.2418 * y, 0.9397);
        assert!((0..s.vertices.len()).any(|i| near(s.vertices[i], corner) && near(s.normals[i], want)), "{}", y);
    }
}
const ROOF: &str = "{
( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) wall 0 0 0 1 1
( 0 0 64 ) ( 0 1 64 ) ( 1 0 64 ) wall 0 0 0 1 1
( -64 0 0 ) ( -64 1 0 ) ( -64 0 1 ) wall 0 0 0 1 1
( 128 0 0 ) ( 128 0 1 ) ( 128 1 0 ) wall 0 0 0 1 1
( 0 -99 0 ) ( 0 -99 1 ) ( 1 -99 0 ) wall 0 0 0 1 1
( 0 99 0 ) ( 1 99 0 ) ( 0 99 1 ) wall 0 0 0 1 1
( 48 0 64 ) ( 48 1 64 ) ( 89.1384 0 14.9732 ) wall 0 0 0 1 1
( 48 32 64 ) ( 47 33 64 ) ( 82.6672 66.6672 22.8616 ) wall 0 0 0 1 1
( 48 -32 64 ) ( 49 -31 64 ) ( 82.6672 -66.6672 22.8616 ) wall 0 0 0 1 1
}
";
''')
bug("B19", "C12", "a phong angle that is not a whole number",
 "the phong angle is read as an integer, so 22.5 counts as no limit at all",
 [("src/geo_builder/brush_plane/normals.rs", "        if let Ok(phong_angle) = phong_angle.parse::<f32>() {\n", "        if let Ok(phong_angle) = phong_angle.parse::<i16>().map(f32::from) {\n")],
 r'''
fn main() {
    let m = ent(&[("classname", "worldspawn"), ("_phong", "1"), ("_phong_angle", "22.5")], &cube(0.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    for n in &surfaces(&t[0])[0].normals {
        assert!(n.x().abs().max(n.y().abs()).max(n.z().abs()) > 0.99, "{:?}", n);
    }
}
''')
bug("B20", "C13", "a standard face with exactly one negative scale",
 "the tangent's handedness follows the horizontal instead of the vertical scale",
 [("src/geo_builder/brush_plane/tangents.rs", "            s * brush_plane.scale.y().signum(),\n", "            s * brush_plane.scale.x().signum(),\n")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 1 -1"));
    let t = build_ok(&m, cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    for i in 0..s.vertices.len() {
        if s.normals[i].z() > 0.9 {
            // v = -y / -1 grows with y, and sign * (n x t) points towards decreasing v
            let (t, sign) = s.tangents[i];
            assert!((s.normals[i].cross(t) * sign).y() < -0.9);
        }
    }
}
''')
bug("B21", "C14", "a texture whose name begins with a blacklisted one",
 "plane blacklist entries match every texture that begins with them",
 [("src/types/texture.rs", "            if texture == plane_texture {", "            if texture.starts_with(plane_texture.as_str()) {")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.textures = vec![("skip", 64, 64), ("skipper", 64, 64)];
    c.black_plane = vec!["skip"];
    let m = world(&boxed([0.0; 3], [32.0; 3], ["skip", "skip", "skipper", "skipper", "skip", "skipper"], "0 0 0 1 1"));
    let t = build_ok(&m, c);
    assert_eq!(surfaces(&t[0]).iter().map(|s| s.indices.len()).sum::<usize>(), 18);
}
''')
bug("B22", "C15", "two corners of one brush that agree in everything but handedness (phong, same axes, mirrored)",
 "vertices that differ only in the tangent's sign are merged, so a mirrored face gets its neighbour's handedness",
 [("src/scene_tree/predicates/vertex.rs", "            && comp.tangent == vertex.tangent\n", "            && comp.tangent.0 == vertex.tangent.0\n")],
 r'''
fn main() {
    // top and east face share an edge, have blended normals, the U axis along the edge and no known size
    let e = [32.0, 32.0, 32.0];
    let b = boxed([0.0; 3], e, ["x"; 6], "[ 0 1 0 0 ] [ 1 0 -1 0 ] 0 1 1");
    let lines: Vec<&str> = b.lines().collect();
    // mirror the east face
    let east = lines[2].replace("0 1 1", "0 1 -1");
    let m = ent(&[("classname", "worldspawn"), ("_phong", "1")], &b.replace(lines[2], &east));
    let t = build_ok(&m, cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    for axis in 0..3 {
        let mut signs = vec![];
        for tri in s.indices.chunks(3) {
            if tri.iter().all(|i| s.vertices[*i][axis] > 31.0) {
                signs.extend(tri.iter().map(|i| s.tangents[*i].1));
            }
        }
        let want = if axis == 2 { 1.0 } else { -1.0 };
        assert!(signs.iter().all(|v| *v == want), "axis {}: {:?}", axis, signs);
    }
}
''')
bug("B23", "C16", "a brush with corners closer than 1/20 unit",
 "convex points closer than 0.05 are taken for one",
 [(T, "                        .find(|comp| vertex == *comp)\n", "                        .find(|comp| (*vertex - **comp).length() < 0.05)\n")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [32.0, 32.0, 1.0 / 32.0], ["wall"; 6], "0 0 0 1 1"));
    let t = build_ok(&m, cfg(CollisionType::Convex));
    match collision(&t[0]) {
        Some(CollisionGeometry::Convex(s)) => assert_eq!(s[0].points.len(), 8),
        c => panic!("{:?}", c),
    }
}
''')
bug("B24", "C17", "concave collision with faces whose texture size is not known",
 "faces of textures without size are left out of concave collision, which tears holes into it",
 [(T, """    let (vertices, indices) = gather_entity_geometry(
        entity_geometry,
        None,
        None,
        Some(&predicates::vertex::unique_position),""", """    let (vertices, indices) = gather_entity_geometry(
        entity_geometry,
        None,
        Some(&|plane_geometry: &&crate::geo_builder::brush_plane::Geometry| {
            plane_geometry.texture.is_some()
        }),
        Some(&predicates::vertex::unique_position),""")],
 r'''
fn main() {
    let m = world(&boxed([0.0; 3], [32.0; 3], ["wall", "wall", "odd", "wall", "odd", "wall"], "0 0 0 1 1"));
    let t = build_ok(&m, cfg(CollisionType::Concave));
    match collision(&t[0]) {
        Some(CollisionGeometry::Concave(s)) => assert_eq!(s[0].indices.len(), 36),
        c => panic!("{:?}", c),
    }
}
''')
bug("B25", "C17", "more than 65536 collision vertices in one entity",
 "index offsets wrap at 16 bits, so later brushes' triangles point at the first brushes",
 [(T, """                .map(move |index| index + index_offset);

            index_offset += vertices.len();
""", """                .map(move |index| (index + index_offset) & 0xffff);

            index_offset += vertices.len();
""")],
 r'''
fn main() {
    let mut b = String::new();
    for i in 0..8300 {
        b += &boxed([(i % 91) as f32 * 4.0, (i / 91) as f32 * 4.0, 0.0], [(i % 91) as f32 * 4.0 + 2.0, (i / 91) as f32 * 4.0 + 2.0, 2.0], ["wall"; 6], "0 0 0 1 1");
    }
    let mut c = cfg(CollisionType::Concave);
    c.entities = vec![class("worldspawn", VisualType::None, CollisionType::Concave)];
    let t = build_ok(&world(&b), c);
    match collision(&t[0]) {
        Some(CollisionGeometry::Concave(s)) => {
            assert_eq!(s[0].vertices.len(), 8300 * 8);
            assert_eq!(s[0].indices.iter().max(), Some(&(8300 * 8 - 1)));
        }
        _ => panic!(),
    }
}
''')
bug("B26", "C18", "two layer definitions for one liquid texture",
 "when a liquid has two layer definitions, the first is used instead of none",
 [(T, "        if layer_data.len() == 1 {", "        if !layer_data.is_empty() {")],
 r'''
fn layer(name: &str) -> WorldspawnLayer {
    WorldspawnLayer::new(name.into(), "*water0".into(), EntityType::class("Area"), ComponentType::None, VisualType::Mesh, CollisionType::None)
}
fn main() {
    for n in 1..3 {
        let mut c = cfg(CollisionType::None);
        c.textures.push(("*water0", 64, 64));
        c.layers = ["sea", "lake"].iter().take(n).map(|s| layer(s)).collect();
        let t = build_ok(&world(&(cube(0.0, "wall") + &cube(64.0, "*water0"))), c);
        assert_eq!(names(&t), if n == 1 { "worldspawn()sea()" } else { "worldspawn()" });
    }
}
''')
bug("B27", "C18", "a worldspawn brush with water on some faces only",
 "a worldspawn brush with one water face is moved to the water layer as a whole",
 [("src/layer_filter/mod.rs", "            .all(|plane_geometry| match", "            .any(|plane_geometry| match")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.textures.push(("*water0", 64, 64));
    let t = build_ok(&world(&boxed([0.0; 3], [32.0; 3], ["wall", "wall", "wall", "wall", "wall", "*water0"], "0 0 0 1 1")), c);
    assert_eq!(surfaces(&t[0]).iter().map(|s| s.indices.len()).sum::<usize>(), 36);
}
''')
bug("B28", "C19", "a surface on which some faces have a colour and some have none",
 "a surface with some coloured faces gets a colour list that is shorter than its vertices",
 [(T, "            let colors: Option<Vec<Color>> = vertices.iter().map(|vertex| vertex.color).collect();\n".replace("            let", "        let"),
  """        let colors: Vec<Color> = vertices.iter().flat_map(|vertex| vertex.color).collect();
        let colors = if colors.is_empty() { None } else { Some(colors) };
""")],
 r'''
fn main() {
    let m = world(&(boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 1 1 1 2 3 10 20 30") + &cube(64.0, "wall")));
    let t = build_ok(&m, cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    assert!(s.colors.is_none(), "{:?} colours, {} vertices", s.colors.as_ref().map(|c| c.len()), s.vertices.len());
}
''')
bug("B29", "C20", "an entity with at least two textures",
 "an entity's surfaces come in hash order, which differs from run to run",
 [(T, """                .into_iter()
                .map(Some)
                .collect();

            // Account""", """                .into_iter()
                .collect::<std::collections::HashSet<String>>()
                .into_iter()
                .map(Some)
                .collect();

            // Account""")],
 r'''
fn main() {
    let mut b = String::new();
    for i in 0..12 { b += &cube(i as f32 * 64.0, &format!("t{}", i)); }
    let run = || {
        let mut c = cfg(CollisionType::None);
        c.textures = vec![("t0", 8, 8), ("t1", 8, 8), ("t2", 8, 8), ("t3", 8, 8), ("t4", 8, 8), ("t5", 8, 8), ("t6", 8, 8), ("t7", 8, 8)];
        let t = build_ok(&world(&b), c);
        surfaces(&t[0]).iter().map(|s| format!("{:?} ", s.texture)).collect::<String>()
    };
    let first = run();
    for _ in 0..10 { assert_eq!(run(), first); }
}
''')
