T = "src/scene_tree/mod.rs"
W = "src/wad/mod.rs"
BUGS = {}
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("B30", "C21", "two entities with an identical brush, one of them with phong",
 "brush geometry is shared between entities with the same brush text, so the second gets the first one's normals",
 [("src/geo_builder/mod.rs", """    entities
        .iter()
        .map(|entity| entity::build(textures, entity))
        .collect()
""", """    // Maps repeat brushes a lot, so build each different one only once
    let mut brushes = std::collections::HashMap::new();
    entities
        .iter()
        .map(|entity| entity::build(textures, entity, &mut brushes))
        .collect()
"""),
  ("src/geo_builder/entity/mod.rs", "pub fn build(textures: &TextureInfo, entity: &Entity) -> Geometry {", """pub fn build(
    textures: &TextureInfo,
    entity: &Entity,
    brushes: &mut std::collections::HashMap<String, brush::Geometry>,
) -> Geometry {"""),
  ("src/geo_builder/entity/mod.rs", "        .map(|brush| brush::build(textures, entity, brush))\n", """        .map(|brush| {
            brushes
                .entry(format!("{:?}", brush))
                .or_insert_with(|| brush::build(textures, entity, brush))
                .clone()
        })
""")],
 r'''
fn main() {
    let m = world("") + &ent(&[("classname", "func_a"), ("_phong", "1")], &cube(0.0, "wall")) + &ent(&[("classname", "func_b")], &cube(0.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::None));
    for n in &surfaces(find(&t, "func_b"))[0].normals {
        assert!(n.x().abs().max(n.y().abs()).max(n.z().abs()) > 0.99, "{:?}", n);
    }
}
''')
bug("B31", "C22", "corners close to, but not on, whole coordinates",
 "corners within 1/50 of a whole number are moved onto it, which deforms small or fine geometry",
 [("src/geo_builder/brush_plane/mod.rs", "            return Some(Vertex::new(vertex, normal, tangent, uv, color));\n", """            // Most corners belong on the grid
            let snap = |v: f32| if (v - v.round()).abs() < 0.02 { v.round() } else { v };
            let vertex = Vector3::new(snap(vertex.x()), snap(vertex.y()), snap(vertex.z()));

            return Some(Vertex::new(vertex, normal, tangent, uv, color));
""")],
 r'''
fn size(scale: f32) -> Vector3 {
    let e = [32.0625 * scale, 32.0 * scale, 32.0 * scale];
    let t = build_ok(&world(&boxed([0.0; 3], e, ["wall"; 6], "0 0 0 1 1")), cfg(CollisionType::None));
    let s = surfaces(&t[0])[0].vertices.iter().fold(Vector3::new(0.0, 0.0, 0.0), |a, v| a.max(*v));
    s / scale
}
fn main() {
    assert!((size(1.0) - size(0.25)).length() < 1e-4, "{:?} {:?}", size(1.0), size(0.25));
}
''')
bug("B32", "C23", "two classes of one name (a base class and a solid class, say)",
 "a class whose name occurred before is left out of the FGD text",
 [("src/game_data/forge/game_data.rs", "        let entities = self.definitions.iter().fold(String::new(), |acc, next| {\n            acc + &format!(\"{}\\n\\n\", next.to_string())\n        });\n", """        let mut seen: std::collections::HashSet<&Entity> = std::collections::HashSet::new();
        let entities = self
            .definitions
            .iter()
            .filter(|definition| seen.insert(*definition))
            .fold(String::new(), |acc, next| acc + &format!("{}\\n\\n", next.to_string()));
""")],
 r'''
fn main() {
    let a = forge::Entity::new(forge::ClassType::BaseClass, vec![], "light", "base", vec![]);
    let b = forge::Entity::new(forge::ClassType::PointClass, vec![], "light", "point", vec![]);
    let text = forge::GameData::new("g".into(), vec![], vec![a, b]).to_string();
    assert!(text.contains("@BaseClass") && text.contains("@PointClass"), "{}", text);
}
''')
bug("B33", "C23", "a flags property with more than eight flags",
 "flag bits from the ninth on are computed in eight bits and come out as 0",
 [("src/game_data/forge/property.rs", "                            let bit = 2_i32.pow(i as u32);\n", "                            let bit = 1_u8.checked_shl(i as u32).unwrap_or(0) as i32;\n")],
 r'''
fn main() {
    let flags: Vec<String> = (0..12).map(|i| format!("f{}", i)).collect();
    let p = forge::Property::new("spawnflags", "", "", forge::PropertyData::Flags(flags, 1 | 512));
    let text = p.to_string();
    assert!(text.contains("2048 : \"f11\" : 0") && text.contains("512 : \"f9\" : 1"), "{}", text);
}
''')
bug("B34", "C24", "saving over a longer file",
 "saving does not truncate the file, so the end of a longer old text remains",
 [("src/game_data/forge/game_data.rs", "        std::fs::write(file, self.to_string())?;\n        Ok(())\n", """        use std::io::Write;
        let mut file = std::fs::OpenOptions::new()
            .write(true)
            .create(true)
            .open(file)?;
        file.write_all(self.to_string().as_bytes())
""")],
 r'''
fn main() {
    std::fs::write("g.fgd", "x".repeat(5000)).unwrap();
    let g = forge::GameData::new("g".into(), vec![], vec![]);
    g.save("g.fgd".into()).unwrap();
    assert_eq!(std::fs::read_to_string("g.fgd").unwrap(), g.to_string());
}
''')
bug("B35", "C24", "a device that becomes full while a short text is written",
 "the text is written through a buffer whose final write error is ignored, so a failed save reports success",
 [("src/game_data/forge/game_data.rs", "        std::fs::write(file, self.to_string())?;\n        Ok(())\n", """        use std::io::Write;
        let mut file = std::io::BufWriter::new(std::fs::File::create(file)?);
        file.write_all(self.to_string().as_bytes())?;
        Ok(())
""")],
 r'''
fn main() {
    let g = forge::GameData::new("g".into(), vec![], vec![]);
    g.save("g.fgd".into()).unwrap();
    assert_eq!(std::fs::read_to_string("g.fgd").unwrap(), g.to_string());
    assert!(g.save("/dev/full".into()).is_err());
}
''')
bug("B36", "C25", "a WAD3 texture read with fewer than four mip levels, behind which data is not packed",
 "the palette is looked for right behind the levels that were read instead of behind the smallest one",
 [(W, """                    if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
                        entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2,
                    )) {""", """                    // The levels lie one behind the other
                    let skipped = size0 + size1 + size2 + size3 - sizes.iter().sum::<usize>();
                    if let Err(err) = wad_file.seek(std::io::SeekFrom::Current(skipped as i64 + 2)) {""")],
 r'''
fn main() {
    // the palette stands behind a gap after the smallest level
    let mut f = wad3(&[("wall", b'C', 16, 16, [1, 2, 3, 4], 77)]);
    let at = 12 + 40 + 256 + 64 + 16 + 4;
    // move mip level 3 eight bytes further: shift everything behind level 2
    let p = 12 + 40 + 256 + 64 + 16;
    for _ in 0..8 { f.insert(p, 0xee); }
    let o8 = 12 + 16 + 8 + 12;
    let v = (40 + 256 + 64 + 16 + 8u32).to_le_bytes();
    f[o8..o8 + 4].copy_from_slice(&v);
    let d = at as u32 + 8 + 2 + 768 + 2;
    f[8..12].copy_from_slice(&d.to_le_bytes());
    std::fs::write("a.wad", &f).unwrap();
    for levels in 1..3 {
        let t = quarchitect::wad::read_textures("a.wad", None, levels).unwrap();
        let p = t[0].palette.as_ref().unwrap();
        for i in 0..256 {
            let c = p.0[i];
            assert_eq!((c.0, c.1, c.2), (i as u8 ^ 77, 77u8.wrapping_add(i as u8), 77));
        }
    }
}
''')
bug("B37", "C26", "a whitelist naming a texture that occurs twice, before another listed one",
 "reading stops once as many textures were found as the whitelist has names, so a repeated one displaces another",
 [(W, "    Ok(entries?.into_iter().flatten().collect())\n", """    let entries = entries?.into_iter().flatten();
    Ok(match whitelist {
        // Nothing more to find
        Some(whitelist) => entries.take(whitelist.len()).collect(),
        None => entries.collect(),
    })
""")],
 r'''
fn main() {
    let e = [("a", b'C', 16, 16, [1, 2, 3, 4], 1), ("a", b'D', 16, 16, [9, 2, 3, 4], 2), ("b", b'C', 8, 8, [5, 2, 3, 4], 3)];
    std::fs::write("a.wad", wad3(&e)).unwrap();
    let t = quarchitect::wad::read_textures("a.wad", Some(vec!["a".into(), "b".into()]), 1).unwrap();
    assert_eq!(t.len(), 3);
}
''')
bug("B38", "C27", "a pixel with palette index 255",
 "index 255 (transparent in some textures) becomes black instead of its palette colour",
 [("src/wad/mip_data.rs", "mip_level.iter().map(|idx| palette[*idx as usize]).collect();", """mip_level
            .iter()
            .map(|idx| palette.get(*idx as usize).filter(|_| *idx != u8::MAX).copied().unwrap_or(Color(0, 0, 0)))
            .collect();""")],
 r'''
fn main() {
    std::fs::write("a.wad", wad3(&[("a", b'C', 16, 16, [0, 0, 0, 0], 5)])).unwrap();
    let t = quarchitect::wad::read_textures("a.wad", None, 1).unwrap().remove(0).into_rgb(None).ok().unwrap();
    let c = t.mip_data.mip0[255];
    assert_eq!((c.0, c.1, c.2), (255 ^ 5, 4, 5));
}
''')
bug("B39", "C28", "a name in the file that is not ASCII text",
 "names are taken as UTF-8 and a name that is not panics the reader",
 [("src/wad/mip_texture.rs", """    let name: String = name
        .into_iter()
        .take_while(|c| *c != char::from(0))
        .collect();

    let name = name.to_lowercase();
""", """    let name: Vec<u8> = name
        .into_iter()
        .take_while(|c| *c != char::from(0))
        .map(|c| c as u8)
        .collect();

    let name = String::from_utf8(name).unwrap().to_lowercase();
""")],
 r'''
fn main() {
    let mut f = wad3(&[("wall", b'C', 16, 16, [0, 0, 0, 0], 5)]);
    f[13] = 0xff;
    std::fs::write("a.wad", &f).unwrap();
    let _ = quarchitect::wad::read_textures("a.wad", None, 1);
}
''')
bug("B40", "C29", "several worker threads that finish textures in another order",
 "textures' data is collected in the order in which the threads finish, so it goes with the wrong headers",
 [(W, """    let mip_data: Vec<Result<(MipDataIndexed, Option<Palette>), String>> = directory
        .par_iter()
        .zip(mip_textures.par_iter())
        .map(|(entry, miptex)| {""", """    let mip_data: Vec<Result<(MipDataIndexed, Option<Palette>), String>> = directory
        .iter()
        .zip(mip_textures.iter())
        .par_bridge()
        .map(|(entry, miptex)| {""")],
 r'''
fn main() {
    let names: Vec<String> = (0..200).map(|i| format!("t{}", i)).collect();
    let e: Vec<(&str, u8, u32, u32, [u8; 4], u8)> = names.iter().enumerate().map(|(i, n)| {
        let s = if i % 7 == 0 { 256 } else { 16 };
        (n.as_str(), b'C', s, s, [i as u8, 0, 0, 0], i as u8)
    }).collect();
    std::fs::write("a.wad", wad3(&e)).unwrap();
    for _ in 0..20 {
        let t = quarchitect::wad::read_textures("a.wad", None, 1).unwrap();
        for (i, t) in t.iter().enumerate() {
            assert_eq!(t.mip_data.mip0.0[0], i as u8, "texture {}", t.mip_texture.name);
        }
    }
}
''')
bug("B41", "C29", "several worker threads reading through one shared file cursor",
 "the threads share one file handle whose position they move under each other",
 [(W, """    let mip_data: Vec<Result<(MipDataIndexed, Option<Palette>), String>> = directory
        .par_iter()""", """    let shared_file = match File::open(wad_file) {
        Ok(wad_file) => wad_file,
        Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
    };

    let mip_data: Vec<Result<(MipDataIndexed, Option<Palette>), String>> = directory
        .par_iter()"""),
  (W, """            let mut wad_file = match File::open(wad_file) {
                Ok(wad_file) => wad_file,
                Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
            };

            if let Err""", """            // Opening the file once is enough
            let mut wad_file = match shared_file.try_clone() {
                Ok(wad_file) => wad_file,
                Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
            };

            if let Err""")],
 r'''
fn main() {
    let names: Vec<String> = (0..300).map(|i| format!("t{}", i)).collect();
    let e: Vec<(&str, u8, u32, u32, [u8; 4], u8)> = names.iter().enumerate().map(|(i, n)| (n.as_str(), b'C', 64, 64, [i as u8, 0, 0, 0], i as u8)).collect();
    std::fs::write("a.wad", wad3(&e)).unwrap();
    for _ in 0..20 {
        let t = quarchitect::wad::read_textures("a.wad", None, 1).unwrap();
        for (i, t) in t.iter().enumerate() {
            assert_eq!(t.mip_data.mip0.0[0], i as u8, "texture {}", t.mip_texture.name);
        }
    }
}
''')
bug("B42", "C30", "a comment that changes only in its wording",
 "comment lines are cut to their first word as tokens, so the diff does not show changed comments",
 [("src/map/quake/tokenizer.rs", "            Some('/') => Token::comment(line),\n", "            Some('/') => Token::comment(line.split(\"  \").next().unwrap_or(line)),\n")],
 r'''
fn diff(a: &str, b: &str) -> String {
    std::fs::write("a.map", a).unwrap();
    std::fs::write("b.map", b).unwrap();
    let me = std::env::current_exe().unwrap();
    let out = std::process::Command::new(me).arg("child").output().unwrap();
    String::from_utf8_lossy(&out.stdout).into_owned()
}
fn main() {
    if std::env::args().nth(1).is_some() {
        quarchitect::run_diff("a.map", "b.map").unwrap();
        return;
    }
    let d = diff("// entity 0  brush 1\n{\n}\n", "// entity 0  brush 2\n{\n}\n");
    assert!(d.contains("Comment"), "{}", d);
}
''')
bug("B43", "C30", "a line that moved across a longer common part",
 "when both directions look equally good the table is read one row off, so the diff is larger than needed",
 [("src/map/quake/tokenizer.rs", "                l[index_x][index_y] = std::cmp::max(l[index_x-1][index_y], l[index_x][index_y-1]);", "                l[index_x][index_y] = std::cmp::max(l[index_x-1][index_y-1], l[index_x][index_y-1]);")],
 r'''
fn main() {
    if std::env::args().nth(1).is_some() {
        quarchitect::run_diff("a.map", "b.map").unwrap();
        return;
    }
    std::fs::write("a.map", "// x\n{\n}\n// a\n// b\n").unwrap();
    std::fs::write("b.map", "{\n}\n").unwrap();
    let me = std::env::current_exe().unwrap();
    let out = std::process::Command::new(me).arg("child").output().unwrap();
    let d = String::from_utf8_lossy(&out.stdout).into_owned();
    assert!(!d.contains("OpenBrace") && !d.contains("CloseBrace"), "{}", d);
}
''')
bug("B44", "C31", "a map file with a byte that is not UTF-8",
 "bytes that are not UTF-8 are replaced instead of refused, so a broken map is built with altered names",
 [("src/lib.rs", "    let file_string = fs::read_to_string(config.map_file)?;\n", "    let file_string = String::from_utf8_lossy(&fs::read(config.map_file)?).into_owned();\n")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd.clear();
    std::fs::write("x.map", b"{\n\"classname\" \"worldspawn\"\n\"message\" \"\xff\"\n}\n").unwrap();
    let r = run(Config::new("x.map", TextureInfo(Default::default()), TextureBlacklist::default(), forge::GameData::default(), GameData { entities: vec![], worldspawn_layers: vec![] }));
    assert!(r.is_err());
}
''')
bug("B45", "C20", "two maps in one process that use a texture name with different sizes",
 "texture coordinates use the size the texture had in the first map of the process",
 [("src/geo_builder/brush_plane/uvs.rs", "pub fn vertex_uv(vertex: Vector3, brush_plane: &BrushPlane, texture: &Texture) -> Vector2 {\n", """thread_local! {
    static SIZES: std::cell::RefCell<std::collections::HashMap<String, (u32, u32)>> = Default::default();
}

pub fn vertex_uv(vertex: Vector3, brush_plane: &BrushPlane, texture: &Texture) -> Vector2 {
    // Remember sizes by name
    let (width, height) = SIZES.with(|sizes| {
        *sizes
            .borrow_mut()
            .entry(brush_plane.texture.clone())
            .or_insert((texture.width, texture.height))
    });
    let texture = &Texture::new(width, height);
""")],
 r'''
fn u(size: u32) -> f32 {
    let mut c = cfg(CollisionType::None);
    c.textures = vec![("wall", size, size)];
    let t = build_ok(&world(&cube(0.0, "wall")), c);
    surfaces(&t[0])[0].uvs.as_ref().unwrap().iter().fold(0.0f32, |a, v| a.max(v.x()))
}
fn main() {
    assert!((u(64) - 0.5).abs() < 1e-4);
    assert!((u(32) - 1.0).abs() < 1e-4);
}
''')
bug("B46", "C02", "a grouped entity with collision",
 "the collision node of a grouped entity carries its position relative to the group instead of its own",
 [(T, "            c => children.push(SceneTreeNode::collision_geometry(entity_geometry.center, c)),", "            c => children.push(SceneTreeNode::collision_geometry(origin + entity_geometry.center, c)),")],
 r'''
fn main() {
    let m = world("")
        + &ent(&[("classname", "func_a"), ("_tb_id", "1"), ("origin", "10 0 0")], "")
        + &ent(&[("classname", "func_b"), ("_tb_group", "1")], &cube(64.0, "wall"));
    let t = build_ok(&m, cfg(CollisionType::Convex));
    for c in actor(find(&t, "func_b")).1 {
        assert!(near(c.origin, Vector3::new(80.0, 16.0, 16.0)), "{:?}", c.origin);
    }
}
''')
bug("B47", "C04", "an entity with _tb_name but without _tb_type",
 "the editor's group name is only taken over when the group type is set as well",
 [(T, """    add_internal_property_string("_tb_type");
    add_internal_property_string("_tb_name");
""", """    add_internal_property_string("_tb_type");
    if entity.properties.contains_key("_tb_type") {
        add_internal_property_string("_tb_name");
    }
""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.fgd = vec![fgd_class("lamp", vec![])];
    let t = build_ok(&(world("") + &ent(&[("classname", "lamp"), ("_tb_name", "n")], "")), c);
    assert!(prop(find(&t, "lamp"), "_tb_name").is_some());
}
''')
bug("B48", "C04", "a flags or choices value outside what the definition lists (a negative number)",
 "negative choices values fall back to the default",
 [(T, """                    Some(value) => match value.parse::<i32>() {
                        Ok(value) => value,
                        Err(_) => *default,
                    },
                    None => *default,
                };

                Property::Choices(value)""", """                    Some(value) => match value.parse::<u16>() {
                        Ok(value) => value as i32,
                        Err(_) => *default,
                    },
                    None => *default,
                };

                Property::Choices(value)""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    let choices = vec![forge::Choice::integer("none", 0), forge::Choice::integer("back", -1)];
    c.fgd = vec![fgd_class("lamp", vec![forge::Property::new("dir", "", "", forge::PropertyData::Choices(choices, 0))])];
    let t = build_ok(&(world("") + &ent(&[("classname", "lamp"), ("dir", "-1")], "")), c);
    match prop(find(&t, "lamp"), "dir") {
        Some(Property::Choices(n)) => assert_eq!(*n, -1),
        p => panic!("{:?}", p),
    }
}
''')
bug("B49", "C08", "a non-numeric colour component of a face line with six extra values",
 "an unreadable blue component of a face colour is taken from green instead of being refused",
 [("src/map/quake/types/brush_plane.rs", """                Ok(b) => b,
                Err(_err) => return Err(QuarchitectError("Failed to parse B color component")),""", """                Ok(b) => b,
                Err(_err) => g,""")],
 r'''
fn main() {
    for (tail, fine) in [("0 0 0 1 1 1 2 3 10 20 30", true), ("0 0 0 1 1 1 2 3 10 20 x", false), ("0 0 0 1 1 1 2 3 x 20 30", false)].iter() {
        let m = world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], tail));
        assert_eq!(build(&m, cfg(CollisionType::None)).is_ok(), *fine, "{}", tail);
    }
}
''')
bug("B50", "C14", "an entity whose brush has textures on the brush blacklist on some faces only",
 "a brush is hidden as soon as one of its textures is on the brush blacklist",
 [("src/scene_tree/predicates/brush.rs", """            if !texture_blacklist.is_blacklisted_brush(&plane.texture_name) {
                return true;
            }
        }

        false""", """            if texture_blacklist.is_blacklisted_brush(&plane.texture_name) {
                return false;
            }
        }

        true""")],
 r'''
fn main() {
    let mut c = cfg(CollisionType::None);
    c.black_brush = vec!["clip"];
    let m = world(&boxed([0.0; 3], [32.0; 3], ["clip", "clip", "clip", "clip", "clip", "wall"], "0 0 0 1 1"));
    let t = build_ok(&m, c);
    assert_eq!(surfaces(&t[0]).iter().map(|s| s.indices.len()).sum::<usize>(), 36);
}
''')
bug("B51", "C07", "a texture name longer than 15 bytes with a letter of several bytes at the cut",
 "texture names are cut to 15 bytes, which panics inside a letter of several bytes",
 [("src/map/quake/types/brush_plane.rs", "            texture,\n            uv,", "            texture: if texture.len() > 63 { texture[..63].into() } else { texture },\n            uv,")],
 r'''
fn main() {
    let name = format!("{}\u{e9}\u{e9}", "a".repeat(62));
    let _ = build(&world(&cube(0.0, &name)), cfg(CollisionType::None));
}
''')
bug("B52", "C10", "a face with more than 16 corners",
 "faces are fanned with at most 14 triangles, so many-sided faces have a piece missing",
 [("src/geo_builder/brush_plane/mod.rs", "        (0..world_vertices.len() - 2)\n", "        (0..(world_vertices.len() - 2).min(30))\n")],
 r'''
fn main() {
    let n = 40;
    let o: Vec<[f32; 2]> = (0..n).map(|i| { let a = i as f32 / n as f32 * 6.2831853; [(a.cos() * 4096.0).round(), (a.sin() * 4096.0).round()] }).collect();
    let t = build_ok(&world(&prism(&o, 0.0, 64.0, "wall")), cfg(CollisionType::None));
    assert_eq!(surfaces(&t[0])[0].indices.len() / 3, 2 * (n - 2) + 2 * n);
}
''')
bug("B53", "C13", "a standard face on the southern side (normal along -y) that is not turned",
 "the handedness of faces along the y axis ignores which way the face looks",
 [("src/geo_builder/brush_plane/tangents.rs", "        tangent = Some((forward_vector, -dr.signum()));", "        tangent = Some((forward_vector, -dr_abs.signum()));")],
 r'''
fn main() {
    let t = build_ok(&world(&boxed([0.0; 3], [32.0; 3], ["wall"; 6], "0 0 0 1 1")), cfg(CollisionType::None));
    let s = surfaces(&t[0])[0];
    for i in 0..s.vertices.len() {
        if s.normals[i].y().abs() > 0.9 {
            // v = -z: sign * (n x t) points towards decreasing v, which is growing z
            let (t, sign) = s.tangents[i];
            assert!((s.normals[i].cross(t) * sign).z() > 0.9, "{:?} {:?} {}", s.normals[i], t, sign);
        }
    }
}
''')
bug("B54", "C17", "a concave entity with two brushes that touch",
 "corners at the same place are shared between all brushes of an entity",
 [(T, """    let collision_vertices: Vec<Vector3> = vertices.iter().map(|vertex| vertex.vertex).collect();
""", """    let (vertices, indices) =
        filter_vertices(&vertices, indices, &predicates::vertex::unique_position);
    let collision_vertices: Vec<Vector3> = vertices.iter().map(|vertex| vertex.vertex).collect();
""")],
 r'''
fn main() {
    let t = build_ok(&world(&(cube(0.0, "wall") + &cube(32.0, "wall"))), cfg(CollisionType::Concave));
    match collision(&t[0]) {
        Some(CollisionGeometry::Concave(s)) => assert_eq!(s[0].vertices.len(), 16),
        c => panic!("{:?}", c),
    }
}
''')
bug("B55", "C03", "two classnames that differ only in letter case",
 "the script of an entity is looked up ignoring the classname's letter case",
 [(T, """fn get_entity_component_class(quarchitect_game_data: &GameData, entity: &Entity) -> Option<String> {
    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| &entity_definition.classname == classname);
""", """fn get_entity_component_class(quarchitect_game_data: &GameData, entity: &Entity) -> Option<String> {
    let classname = entity.properties.get("classname");
    match classname {
        Some(classname) => {
            let entity = quarchitect_game_data
                .entities
                .iter()
                .find(|entity_definition| entity_definition.classname.eq_ignore_ascii_case(classname));
""")],
 r'''
fn point(name: &str, script: &str) -> Entity {
    Entity::point(name.into(), EntityType::class("L"), ComponentType::Script(script.into()), PropertyApplicationType::Properties, Properties::default())
}
fn main() {
    let mut c = cfg(CollisionType::None);
    c.entities = vec![point("Lamp", "upper"), point("lamp", "lower")];
    let t = build_ok(&(world("") + &ent(&[("classname", "lamp")], "")), c);
    assert_eq!(actor(find(&t, "lamp")).0.component_class.as_ref().map(|s| s.as_str()), Some("lower"));
}
''')
bug("B56", "C06", "white space other than blanks inside a face line (tabs)",
 "face lines are split at blanks only, so lines with tabs are refused",
 [("src/map/quake/types/brush_plane.rs", "source.split_whitespace();", "source.split(' ').filter(|comp| !comp.is_empty());")],
 r'''
fn main() {
    let m = world(&cube(0.0, "wall"));
    assert!(build(&m, cfg(CollisionType::None)).is_ok());
    assert!(build(&m.replace(" wall ", "\twall\t"), cfg(CollisionType::None)).is_ok());
}
''')
