From 0bbfb498e583449b69406438b95248978af9799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 01/31] fix: treat a property line without a value as
 unrecognized instead of panicking

---
 src/map/quake/tokenizer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 578c5b5..dd0900b 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -50,10 +50,13 @@ pub fn run(file_string: String) -> Vec<Token> {
             Some('"') => {
                 let mut comps = line.split('"');
                 comps.next();
-                let key = comps.next().unwrap();
+                let key = comps.next();
                 comps.next();
-                let value = comps.next().unwrap();
-                Token::property(key, value)
+                let value = comps.next();
+                match (key, value) {
+                    (Some(key), Some(value)) => Token::property(key, value),
+                    _ => Token::unrecognized(line),
+                }
             }
             Some('{') => Token::OpenBrace,
             Some('}') => Token::CloseBrace,
-- 
2.43.0


From 44a18c46cfe888d58d8edfeb158b609370b8645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 02/31] fix: diff the last tokens, repeated tokens and empty
 files correctly

---
 src/map/quake/tokenizer.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index dd0900b..6a38c30 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -88,12 +88,9 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         v.resize(size_y + 1, 0);
     }
 
-    for index_x in 0..size_x {
-        for index_y in 0..size_y {
-            if index_x == 0 || index_y == 0 {
-                l[index_x][index_y] = 0;
-            }
-            else if tokens_a[index_x-1] == tokens_b[index_y-1] {
+    for index_x in 1..=size_x {
+        for index_y in 1..=size_y {
+            if tokens_a[index_x-1] == tokens_b[index_y-1] {
                 l[index_x][index_y] = l[index_x-1][index_y-1] + 1;
             }
             else {
@@ -102,19 +99,17 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let mut index = l[size_x-1][size_y-1];
-    let mut lcs: Vec<Option<&Token>> = Vec::new();
-    lcs.resize(index, None);
-
+    let mut kept_a = vec![false; size_x];
+    let mut kept_b = vec![false; size_y];
 
-    let mut i = size_x - 1;
-    let mut j = size_y - 1;
+    let mut i = size_x;
+    let mut j = size_y;
     while i > 0 && j > 0 {
         if tokens_a[i-1] == tokens_b[j-1] {
-            lcs[index-1] = Some(&tokens_a[i-1]);
+            kept_a[i-1] = true;
+            kept_b[j-1] = true;
             i -= 1;
             j -= 1;
-            index -= 1;
         }
         else if l[i-1][j] > l[i][j-1] {
             i -= 1;
@@ -124,20 +119,16 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let lcs: Vec<&Token> = lcs.iter().map(|token| {
-        token.unwrap()
-    }).collect();
-
     let mut removed: Vec<&Token> = Vec::new();
-    for token in tokens_a {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
+    for (token, kept) in tokens_a.iter().zip(kept_a) {
+        if !kept {
             removed.push(token);
         }
     }
 
     let mut added: Vec<&Token> = Vec::new();
-    for token in tokens_b {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
+    for (token, kept) in tokens_b.iter().zip(kept_b) {
+        if !kept {
             added.push(token);
         }
     }
-- 
2.43.0


From 21e32e26994d215dfc526a8683f06a8957bf61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:32 +0000
Subject: [PATCH 03/31] fix: report malformed brush planes as errors instead of
 panicking

---
 src/map/quake/types/brush_plane.rs | 46 ++++++++++++++++++------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index ea3cf0d..119ad82 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -79,6 +79,13 @@ impl ExtraData {
     }
 }
 
+fn parse_number(comp: Option<&str>) -> Result<f32, QuarchitectError> {
+    match comp.map(|comp| comp.parse()) {
+        Some(Ok(number)) => Ok(number),
+        _ => Err(QuarchitectError("Failed to parse brush plane number")),
+    }
+}
+
 // Brush Plane
 #[derive(PartialEq, Debug)]
 pub struct BrushPlane {
@@ -102,9 +109,9 @@ impl BrushPlane {
 
         for i in 0..3 {
             comps.next();
-            let x: f32 = comps.next().unwrap().parse().unwrap();
-            let y: f32 = comps.next().unwrap().parse().unwrap();
-            let z: f32 = comps.next().unwrap().parse().unwrap();
+            let x: f32 = parse_number(comps.next())?;
+            let y: f32 = parse_number(comps.next())?;
+            let z: f32 = parse_number(comps.next())?;
             comps.next();
 
             let v = match i {
@@ -119,26 +126,29 @@ impl BrushPlane {
             v.set_z(z);
         }
 
-        let texture = comps.next().unwrap().to_lowercase();
+        let texture = match comps.next() {
+            Some(texture) => texture.to_lowercase(),
+            None => return Err(QuarchitectError("Missing texture in brush plane")),
+        };
 
-        let uv = match comps.next().unwrap().parse::<f32>() {
+        let uv = match parse_number(comps.next()) {
             Ok(u) => {
-                let v: f32 = comps.next().unwrap().parse().unwrap();
+                let v: f32 = parse_number(comps.next())?;
                 UV::standard(u, v)
             }
             Err(_err) => {
-                let ux: f32 = comps.next().unwrap().parse().unwrap();
-                let uy: f32 = comps.next().unwrap().parse().unwrap();
-                let uz: f32 = comps.next().unwrap().parse().unwrap();
-                let uo: f32 = comps.next().unwrap().parse().unwrap();
+                let ux: f32 = parse_number(comps.next())?;
+                let uy: f32 = parse_number(comps.next())?;
+                let uz: f32 = parse_number(comps.next())?;
+                let uo: f32 = parse_number(comps.next())?;
 
                 comps.next();
                 comps.next();
 
-                let vx: f32 = comps.next().unwrap().parse().unwrap();
-                let vy: f32 = comps.next().unwrap().parse().unwrap();
-                let vz: f32 = comps.next().unwrap().parse().unwrap();
-                let vo: f32 = comps.next().unwrap().parse().unwrap();
+                let vx: f32 = parse_number(comps.next())?;
+                let vy: f32 = parse_number(comps.next())?;
+                let vz: f32 = parse_number(comps.next())?;
+                let vo: f32 = parse_number(comps.next())?;
                 
                 comps.next();
 
@@ -146,16 +156,16 @@ impl BrushPlane {
             }
         };
 
-        let rotation: f32 = comps.next().unwrap().parse().unwrap();
+        let rotation: f32 = parse_number(comps.next())?;
 
-        let x: f32 = comps.next().unwrap().parse().unwrap();
-        let y: f32 = comps.next().unwrap().parse().unwrap();
+        let x: f32 = parse_number(comps.next())?;
+        let y: f32 = parse_number(comps.next())?;
         let scale = Vector2::new(x, y);
 
         let extra_comps: Vec<&str> = comps.collect();
         let extra = match extra_comps.len() {
             0 => ExtraData::None,
-            1 => ExtraData::Hexen2(extra_comps.first().unwrap().parse().unwrap()),
+            1 => ExtraData::Hexen2(parse_number(extra_comps.first().copied())?),
             3 => ExtraData::quake_2(extra_comps)?,
             6 => ExtraData::daikatana(extra_comps)?,
             _ => return Err(QuarchitectError("Unrecognized extra data")),
-- 
2.43.0


From 22c3b2bb67b98a850061a4eacdfa4e4d05e7729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 04/31] fix: report a map that ends inside an entity or brush
 as an error

---
 src/map/quake/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 629ef92..e8c8356 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -191,5 +191,8 @@ pub fn run(
         }
     }
 
-    Ok((token_paths, entities))
+    match scope {
+        ParseScope::File => Ok((token_paths, entities)),
+        _ => Err(QuarchitectError("Unclosed brace at end of file")),
+    }
 }
-- 
2.43.0


From 0c69e78e1f1b244eba87259d54a2902f88f4d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 05/31] fix: report a missing or repeated worldspawn as an
 error instead of panicking

---
 src/layer_filter/mod.rs | 21 ++++++++++++---------
 src/lib.rs              |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 4562126..678b8ce 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,13 +1,17 @@
 use crate::geo_builder;
 use crate::map;
+use crate::QuarchitectError;
 use std::collections::HashMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-) -> (
-    Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    HashMap<String, Vec<geo_builder::brush::Geometry>>,
-) {
+) -> Result<
+    (
+        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
+        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+    ),
+    QuarchitectError,
+> {
     let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
@@ -21,10 +25,9 @@ pub fn run(
         });
 
     {
-        assert!(
-            worldspawn_entity_data.len() == 1,
-            "Worldspawn element not a singleton"
-        );
+        if worldspawn_entity_data.len() != 1 {
+            return Err(QuarchitectError("Worldspawn element not a singleton"));
+        }
 
         let (worldspawn_entity, mut worldspawn_geometry): (
             map::quake::Entity,
@@ -60,7 +63,7 @@ pub fn run(
         .chain(entity_data.into_iter())
         .collect();
 
-    (entity_data, worldspawn_layers)
+    Ok((entity_data, worldspawn_layers))
 }
 
 fn brush_geometry_by_layer(layer: &str) -> impl FnMut(&geo_builder::brush::Geometry) -> bool + '_ {
diff --git a/src/lib.rs b/src/lib.rs
index ea01d4b..782fd1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         .collect();
 
     // Split layers out of worldspawn
-    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data);
+    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data)?;
 
     // Build engine representation
     let scene_tree = scene_tree::run(
-- 
2.43.0


From f81248e5515b0e7f742bc5701867581891602b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 06/31] fix: report an entity without classname as an error
 instead of panicking

---
 src/map/quake/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index e8c8356..879095b 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -141,7 +141,13 @@ pub fn run(
             },
             Token::CloseBrace => match scope {
                 ParseScope::File => return Err(QuarchitectError("Close brace in file scope")),
-                ParseScope::Entity(_entity_id) => scope = ParseScope::file(),
+                ParseScope::Entity(_entity_id) => {
+                    let entity = entities.last().unwrap();
+                    if entity.get_property("classname").is_none() {
+                        return Err(QuarchitectError("Entity without classname"));
+                    }
+                    scope = ParseScope::file()
+                }
                 ParseScope::Brush(brush_path) => scope = ParseScope::entity(brush_path.entity_idx),
             },
             Token::Property(p) => match &scope {
-- 
2.43.0


From 1c012ae590bc91bf090be63fccb547c6025c0aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 07/31] fix: skip a non-integer _tb_id or _tb_group instead of
 panicking

---
 src/scene_tree/mod.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c58d2bf..06d3e11 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -291,17 +291,11 @@ fn get_entity_properties(
     let mut properties: HashMap<String, Property> = HashMap::new();
 
     let mut add_internal_property_integer = |property_name: &str| {
-        if entity.properties.contains_key(property_name) {
+        let value = entity.properties.get(property_name);
+        if let Some(Ok(value)) = value.map(|value| value.parse::<i32>()) {
             properties.insert(
                 property_name.into(),
-                crate::game_data::Property::Integer(
-                    entity
-                        .properties
-                        .get(property_name)
-                        .unwrap()
-                        .parse::<i32>()
-                        .unwrap(),
-                ),
+                crate::game_data::Property::Integer(value),
             );
         }
     };
-- 
2.43.0


From 7f336d77c401e337c543524b6eb54e4f9b151483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 08/31] fix: give flags properties the Flags kind instead of
 Choices

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 06d3e11..643072f 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -379,7 +379,7 @@ fn get_entity_properties(
                     None => *default,
                 };
 
-                Property::Choices(value)
+                Property::Flags(value)
             }
             crate::game_data::forge::PropertyData::TargetSource => Property::TargetSource,
             crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
-- 
2.43.0


From 5f3c5cd3e941319cfe1fab32ffa34b8defa95400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 09/31] fix: read color255 map values into 0-1 colors like
 their defaults

---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 643072f..95c0553 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -430,7 +430,7 @@ fn parse_color_property(value: &str) -> Option<Color> {
         None => return None,
     };
 
-    Some(Color::new(r, g, b))
+    Some(Color::new(r / 255.0, g / 255.0, b / 255.0))
 }
 
 fn parse_float(comps: &mut dyn std::iter::Iterator<Item = &str>) -> Option<f32> {
-- 
2.43.0


From 07b66c318b5ca031a9473b625db0daeb25f9caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 10/31] fix: give group members a single parent when several
 entities share a _tb_id

---
 src/scene_tree/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 95c0553..0abf203 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -92,7 +92,13 @@ fn build_entity<'a>(
             c => children.push(SceneTreeNode::collision_geometry(entity_geometry.center, c)),
         }
 
-        let tb_id = entity.properties.get("_tb_id");
+        // Only the first entity with a given id adopts that id's group members
+        let tb_id = entity.properties.get("_tb_id").filter(|tb_id| {
+            entity_data
+                .iter()
+                .find(|(other, _geometry)| other.properties.get("_tb_id") == Some(*tb_id))
+                .map_or(false, |(first, _geometry)| std::ptr::eq(first, entity))
+        });
         let mut child_entities: Vec<SceneTreeNode> = entity_data
             .iter()
             .skip(1)
-- 
2.43.0


From 2fa9b178ef7cba2547e32f2029e70664506bf7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 11/31] fix: remap a merged vertex to the vertex it equals, not
 the first at its position

---
 src/scene_tree/mod.rs               | 30 ++++++++++++++---------------
 src/scene_tree/predicates/vertex.rs | 16 ++++++---------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 0abf203..a40842d 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -697,7 +697,7 @@ fn gather_entity_geometry<'a>(
     entity_geometry: &'a entity::Geometry,
     brush_predicate: Option<&dyn Fn(&&crate::geo_builder::brush::Geometry) -> bool>,
     plane_predicate: Option<&dyn Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool>,
-    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> bool>,
+    vertex_predicate: Option<&dyn Fn(&Vertex, &[&Vertex]) -> Option<usize>>,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let brush_predicate = match brush_predicate {
         Some(brush_predicate) => brush_predicate,
@@ -739,7 +739,7 @@ fn gather_entity_geometry<'a>(
 fn gather_brush_geometry<'a>(
     brush_geometry: &'a brush::Geometry,
     plane_predicate: Option<&dyn Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool>,
-    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> bool>,
+    vertex_predicate: Option<&dyn Fn(&Vertex, &[&Vertex]) -> Option<usize>>,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let plane_geometry = &brush_geometry.plane_geometry;
 
@@ -783,26 +783,24 @@ fn gather_brush_geometry<'a>(
 fn filter_vertices<'a>(
     vertices: &[&'a Vertex],
     indices: Vec<usize>,
-    predicate: &dyn Fn(usize, &Vertex, &[&Vertex]) -> bool,
+    predicate: &dyn Fn(&Vertex, &[&Vertex]) -> Option<usize>,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let mut indices = indices;
     let mut new_indices: Vec<usize> = Vec::new();
     let mut new_vertices: Vec<&Vertex> = Vec::new();
 
     for (i, vertex) in vertices.iter().enumerate() {
-        if predicate(i, vertex, &vertices) {
-            new_indices.push(i);
-            new_vertices.push(vertex);
-        } else {
-            let position = vertices
-                .iter()
-                .position(|comp| comp.vertex == vertex.vertex)
-                .unwrap();
-
-            indices = indices
-                .iter()
-                .map(|index| if *index == i { position } else { *index })
-                .collect();
+        match predicate(vertex, &vertices) {
+            Some(position) if position < i => {
+                indices = indices
+                    .iter()
+                    .map(|index| if *index == i { position } else { *index })
+                    .collect();
+            }
+            _ => {
+                new_indices.push(i);
+                new_vertices.push(vertex);
+            }
         }
     }
 
diff --git a/src/scene_tree/predicates/vertex.rs b/src/scene_tree/predicates/vertex.rs
index f3594fa..66641e1 100644
--- a/src/scene_tree/predicates/vertex.rs
+++ b/src/scene_tree/predicates/vertex.rs
@@ -1,21 +1,17 @@
 use crate::Vertex;
 
-pub fn unique(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
-    let position = vertices.iter().position(|comp| {
+pub fn unique(vertex: &Vertex, vertices: &[&Vertex]) -> Option<usize> {
+    vertices.iter().position(|comp| {
         comp.vertex == vertex.vertex
             && comp.normal == vertex.normal
             && comp.tangent == vertex.tangent
             && comp.uv == vertex.uv
             && comp.color == vertex.color
-    });
-
-    position.is_none() || position.unwrap() >= i
+    })
 }
 
-pub fn unique_position(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
-    let position = vertices
+pub fn unique_position(vertex: &Vertex, vertices: &[&Vertex]) -> Option<usize> {
+    vertices
         .iter()
-        .position(|comp| comp.vertex == vertex.vertex);
-
-    position.is_none() || position.unwrap() >= i
+        .position(|comp| comp.vertex == vertex.vertex)
 }
-- 
2.43.0


From 44fb6384e44ac80427f0168e33ff6a042e4c5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 12/31] fix: emit worldspawn layers in a fixed order

---
 src/layer_filter/mod.rs | 6 +++---
 src/scene_tree/mod.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 678b8ce..51f2e0a 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,18 +1,18 @@
 use crate::geo_builder;
 use crate::map;
 use crate::QuarchitectError;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
 ) -> Result<
     (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+        BTreeMap<String, Vec<geo_builder::brush::Geometry>>,
     ),
     QuarchitectError,
 > {
-    let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
+    let mut worldspawn_layers: BTreeMap<String, Vec<geo_builder::brush::Geometry>> = BTreeMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index a40842d..2462405 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 pub use types::{
     Actor, CollisionGeometry, MeshSurface, SceneTreeNode, SceneTreeType, VisualGeometry,
@@ -24,7 +24,7 @@ pub fn run(
     quarchitect_game_data: &crate::game_data::GameData,
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
-    worldspawn_layers: &HashMap<String, Vec<brush::Geometry>>,
+    worldspawn_layers: &BTreeMap<String, Vec<brush::Geometry>>,
 ) -> Vec<SceneTreeNode> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
-- 
2.43.0


From bd950fdd0e3cc87485119e49e22a0c324a332645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 13/31] fix: apply texture blacklists to textures of unknown
 size too

---
 src/geo_builder/brush_plane/geometry.rs | 5 +++--
 src/geo_builder/brush_plane/mod.rs      | 2 +-
 src/scene_tree/mod.rs                   | 2 +-
 src/scene_tree/predicates/brush.rs      | 6 +-----
 src/scene_tree/predicates/plane.rs      | 4 ++++
 5 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/geo_builder/brush_plane/geometry.rs b/src/geo_builder/brush_plane/geometry.rs
index fac163f..8be5b9f 100644
--- a/src/geo_builder/brush_plane/geometry.rs
+++ b/src/geo_builder/brush_plane/geometry.rs
@@ -7,10 +7,11 @@ pub struct Geometry {
     pub vertices: Vec<Vertex>,
     pub indices: Vec<usize>,
     pub texture: Option<String>,
+    pub texture_name: String,
 }
 
 impl Geometry {
-    pub fn new(center: Vector3, vertices: Vec<Vertex>, indices: Vec<usize>, texture:Option<String>) -> Geometry {
-        Geometry { center, vertices, indices, texture }
+    pub fn new(center: Vector3, vertices: Vec<Vertex>, indices: Vec<usize>, texture:Option<String>, texture_name: String) -> Geometry {
+        Geometry { center, vertices, indices, texture, texture_name }
     }
 }
diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 70cf2ff..216153d 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -110,7 +110,7 @@ pub fn build(
         None => None,
     };
 
-    Geometry::new(center, world_vertices, indices, texture)
+    Geometry::new(center, world_vertices, indices, texture, plane.texture.clone())
 }
 
 fn build_plane_vertex(
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 2462405..496d618 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -575,7 +575,7 @@ fn build_brush_entity_texture_surface<'a>(
         let (vertices, indices) = gather_entity_geometry(
             entity_geometry,
             Some(&predicates::brush::not_blacklisted(&texture_blacklist)),
-            Some(&predicates::plane::has_texture(&texture)),
+            Some(&predicates::plane::has_texture(&texture, &texture_blacklist)),
             Some(&predicates::vertex::unique),
         );
 
diff --git a/src/scene_tree/predicates/brush.rs b/src/scene_tree/predicates/brush.rs
index 73feb62..f3ea731 100644
--- a/src/scene_tree/predicates/brush.rs
+++ b/src/scene_tree/predicates/brush.rs
@@ -5,11 +5,7 @@ pub fn not_blacklisted<'a>(
 ) -> impl Fn(&&crate::geo_builder::brush::Geometry) -> bool + 'a {
     move |brush_geometry: &&crate::geo_builder::brush::Geometry| {
         for plane in &brush_geometry.plane_geometry {
-            if let Some(texture) = &plane.texture {
-                if !texture_blacklist.is_blacklisted_brush(texture) {
-                    return true;
-                }
-            } else {
+            if !texture_blacklist.is_blacklisted_brush(&plane.texture_name) {
                 return true;
             }
         }
diff --git a/src/scene_tree/predicates/plane.rs b/src/scene_tree/predicates/plane.rs
index fada3ca..9a160d2 100644
--- a/src/scene_tree/predicates/plane.rs
+++ b/src/scene_tree/predicates/plane.rs
@@ -1,7 +1,11 @@
+use crate::TextureBlacklist;
+
 pub fn has_texture<'a>(
     texture: &'a Option<String>,
+    texture_blacklist: &'a TextureBlacklist,
 ) -> impl Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool + 'a {
     move |plane_geometry: &&crate::geo_builder::brush_plane::Geometry| {
         &plane_geometry.texture == texture
+            && !texture_blacklist.is_blacklisted_plane(&plane_geometry.texture_name)
     }
 }
-- 
2.43.0


From 0cb04510e164c8c94f317d958c9c9e8f89320e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 14/31] fix: leave redundant planes out of the brush center

---
 src/geo_builder/brush/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/geo_builder/brush/mod.rs b/src/geo_builder/brush/mod.rs
index 13f8947..ede9b04 100644
--- a/src/geo_builder/brush/mod.rs
+++ b/src/geo_builder/brush/mod.rs
@@ -17,13 +17,16 @@ pub fn build(textures: &TextureInfo, entity: &Entity, brush: &Brush) -> Geometry
         .map(|plane| brush_plane::build(textures, entity, planes, plane))
         .collect();
 
-    // Calculate center
-    let center = plane_geometry
+    // Calculate center, leaving out planes without a face
+    let centers: Vec<Vector3> = plane_geometry
         .iter()
-        .fold(Vector3::new(0.0, 0.0, 0.0), |acc, plane_geometry| {
-            acc + plane_geometry.center
-        })
-        / plane_geometry.len().max(1) as f32;
+        .filter(|plane_geometry| !plane_geometry.vertices.is_empty())
+        .map(|plane_geometry| plane_geometry.center)
+        .collect();
+    let center = centers
+        .iter()
+        .fold(Vector3::new(0.0, 0.0, 0.0), |acc, center| acc + *center)
+        / centers.len().max(1) as f32;
 
     Geometry::new(center, plane_geometry)
 }
-- 
2.43.0


From 90eaae80acda3c0af22fc88bd0850ea35701b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 15/31] fix: turn the standard tangent in the same direction as
 the texture

---
 src/geo_builder/brush_plane/tangents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/tangents.rs b/src/geo_builder/brush_plane/tangents.rs
index b9cb9f4..82221a3 100644
--- a/src/geo_builder/brush_plane/tangents.rs
+++ b/src/geo_builder/brush_plane/tangents.rs
@@ -34,7 +34,7 @@ fn standard_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
 
     match tangent {
         Some((v, s)) => (
-            crate::Quat::from_axis_angle(brush_plane.normal(), -brush_plane.rotation.to_radians() * s) * v,
+            crate::Quat::from_axis_angle(brush_plane.normal(), brush_plane.rotation.to_radians() * s) * v,
             s * brush_plane.scale.y().signum(),
         ),
         None => panic!("Failed to generate tangent"),
-- 
2.43.0


From 51a49a08e45228324cdbdec856145b90f83e6f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 16/31] fix: flip the valve tangent sign for a negative
 vertical scale like the standard one

---
 src/geo_builder/brush_plane/tangents.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/tangents.rs b/src/geo_builder/brush_plane/tangents.rs
index 82221a3..4ede688 100644
--- a/src/geo_builder/brush_plane/tangents.rs
+++ b/src/geo_builder/brush_plane/tangents.rs
@@ -47,7 +47,8 @@ fn valve_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
             .normal()
             .cross(uv.u_axis)
             .dot(uv.v_axis)
-            .signum();
+            .signum()
+            * brush_plane.scale.y().signum();
         (uv.u_axis, v_sign)
     } else {
         panic!("Not a valve UV");
-- 
2.43.0


From ca99fad8f495fc7ffe1566cdf1dea2f311013504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 17/31] fix: ignore degenerate planes and non-finite corners
 instead of panicking

---
 src/geo_builder/brush_plane/mod.rs      |  4 +---
 src/geo_builder/brush_plane/vertices.rs | 14 ++++++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 216153d..70863ef 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -1,5 +1,3 @@
-use std::cmp::Ordering;
-
 mod geometry;
 mod normals;
 mod tangents;
@@ -89,7 +87,7 @@ pub fn build(
         let lhs_angle = lhs_pv.atan2(lhs_pu);
         let rhs_angle = rhs_pv.atan2(rhs_pu);
 
-        rhs_angle.partial_cmp(&lhs_angle).unwrap_or(Ordering::Equal)
+        rhs_angle.total_cmp(&lhs_angle)
     });
 
     let mut world_vertices = wound_vertices;
diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 50a85eb..03c45f2 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -14,13 +14,19 @@ pub fn intersect_brush_planes(
 
     let denom = n0.cross(n1).dot(n2);
 
-    if denom < CMP_EPSILON {
+    // Also rejects the NaN normals of degenerate planes
+    if !(denom >= CMP_EPSILON) {
         return None;
     }
 
-    Some(
-        (n1.cross(n2) * p0.dist() + n2.cross(n0) * p1.dist() + n0.cross(n1) * p2.dist()) / denom,
-    )
+    let vertex =
+        (n1.cross(n2) * p0.dist() + n2.cross(n0) * p1.dist() + n0.cross(n1) * p2.dist()) / denom;
+
+    if vertex.x().is_finite() && vertex.y().is_finite() && vertex.z().is_finite() {
+        Some(vertex)
+    } else {
+        None
+    }
 }
 
 pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
-- 
2.43.0


From 04071bd661fbb283fe6319d4c0dd1a08a41e531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 18/31] fix: intersect brush planes in double precision so
 sloped corners are not lost

---
 src/geo_builder/brush_plane/mod.rs      |  1 +
 src/geo_builder/brush_plane/vertices.rs | 41 +++++++++++++++++--------
 src/map/quake/types/brush_plane.rs      | 23 ++++++++++----
 3 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 70863ef..e3c5cbb 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -121,6 +121,7 @@ fn build_plane_vertex(
 ) -> Option<Vertex> {
     if let Some(vertex) = vertices::intersect_brush_planes(plane, p1, p2) {
         if vertices::vertex_in_hull(vertex, planes) {
+            let vertex = vertices::to_vector3(vertex);
             let normal = normals::vertex_normal(entity, plane, p1, p2);
             let tangent = tangents::vertex_tangent(plane);
 
diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 03c45f2..ff2a47f 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -1,40 +1,57 @@
 use crate::map::quake::BrushPlane;
 use crate::Vector3;
 
-const CMP_EPSILON: f32 = 0.001;
+const CMP_EPSILON: f64 = 0.001;
+
+fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
+    [
+        a[1] * b[2] - a[2] * b[1],
+        a[2] * b[0] - a[0] * b[2],
+        a[0] * b[1] - a[1] * b[0],
+    ]
+}
+
+fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
+    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
+}
 
 pub fn intersect_brush_planes(
     p0: &BrushPlane,
     p1: &BrushPlane,
     p2: &BrushPlane,
-) -> Option<Vector3> {
-    let n0 = p0.normal();
-    let n1 = p1.normal();
-    let n2 = p2.normal();
+) -> Option<[f64; 3]> {
+    let (n0, d0) = p0.equation();
+    let (n1, d1) = p1.equation();
+    let (n2, d2) = p2.equation();
 
-    let denom = n0.cross(n1).dot(n2);
+    let denom = dot(cross(n0, n1), n2);
 
     // Also rejects the NaN normals of degenerate planes
     if !(denom >= CMP_EPSILON) {
         return None;
     }
 
-    let vertex =
-        (n1.cross(n2) * p0.dist() + n2.cross(n0) * p1.dist() + n0.cross(n1) * p2.dist()) / denom;
+    let (c0, c1, c2) = (cross(n1, n2), cross(n2, n0), cross(n0, n1));
+    let coordinate = |i: usize| (c0[i] * d0 + c1[i] * d1 + c2[i] * d2) / denom;
+    let vertex = [coordinate(0), coordinate(1), coordinate(2)];
 
-    if vertex.x().is_finite() && vertex.y().is_finite() && vertex.z().is_finite() {
+    if vertex.iter().all(|coordinate| (*coordinate as f32).is_finite()) {
         Some(vertex)
     } else {
         None
     }
 }
 
-pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
+pub fn vertex_in_hull(vertex: [f64; 3], hull: &[BrushPlane]) -> bool {
     for brush_plane in hull {
-        let proj = brush_plane.normal().dot(vertex);
-        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
+        let (normal, dist) = brush_plane.equation();
+        if dot(normal, vertex) - dist > CMP_EPSILON {
             return false;
         }
     }
     true
 }
+
+pub fn to_vector3(vertex: [f64; 3]) -> Vector3 {
+    Vector3::new(vertex[0] as f32, vertex[1] as f32, vertex[2] as f32)
+}
diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index 119ad82..73b6638 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -184,13 +184,24 @@ impl BrushPlane {
     }
 
     pub fn normal(&self) -> Vector3 {
-        let v0v1 = self.v1 - self.v0;
-        let v0v2 = self.v2 - self.v0;
-        v0v2.cross(v0v1).normalize()
+        let (n, _dist) = self.equation();
+        Vector3::new(n[0] as f32, n[1] as f32, n[2] as f32)
     }
 
-    pub fn dist(&self) -> f32 {
-        let n = self.normal();
-        n.dot(self.v0)
+    // Normal and distance in double precision, so that planes far from the
+    // origin or with small angles between them still meet in the right place
+    pub fn equation(&self) -> ([f64; 3], f64) {
+        let to_f64 = |v: Vector3| [v.x() as f64, v.y() as f64, v.z() as f64];
+        let (v0, v1, v2) = (to_f64(self.v0), to_f64(self.v1), to_f64(self.v2));
+        let a = [v2[0] - v0[0], v2[1] - v0[1], v2[2] - v0[2]];
+        let b = [v1[0] - v0[0], v1[1] - v0[1], v1[2] - v0[2]];
+        let n = [
+            a[1] * b[2] - a[2] * b[1],
+            a[2] * b[0] - a[0] * b[2],
+            a[0] * b[1] - a[1] * b[0],
+        ];
+        let length = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt();
+        let n = [n[0] / length, n[1] / length, n[2] / length];
+        (n, n[0] * v0[0] + n[1] * v0[1] + n[2] * v0[2])
     }
 }
-- 
2.43.0


From 7d24207024ad57cad3f9569b2f901e69fe295097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 19/31] fix: keep face corners exact instead of moving them to
 the face center and back

---
 src/geo_builder/brush_plane/mod.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index e3c5cbb..5b28135 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -65,18 +65,13 @@ pub fn build(
         .fold(Vector3::new(0.0, 0.0, 0.0), |acc, next| acc + next.vertex)
         / unique_vertices.len().max(1) as f32;
 
-    let mut local_vertices = unique_vertices;
-    for vertex in local_vertices.iter_mut() {
-        vertex.vertex -= center;
-    }
-
     let u_axis = (plane.v1 - plane.v0).normalize();
     let v_axis = plane.normal().cross(u_axis);
 
-    let mut wound_vertices = local_vertices;
-    wound_vertices.sort_by(|a, b| {
-        let vert_a = a.vertex;
-        let vert_b = b.vertex;
+    let mut world_vertices = unique_vertices;
+    world_vertices.sort_by(|a, b| {
+        let vert_a = a.vertex - center;
+        let vert_b = b.vertex - center;
 
         let lhs_pu = vert_a.dot(u_axis);
         let lhs_pv = vert_a.dot(v_axis);
@@ -90,11 +85,6 @@ pub fn build(
         rhs_angle.total_cmp(&lhs_angle)
     });
 
-    let mut world_vertices = wound_vertices;
-    for vertex in world_vertices.iter_mut() {
-        vertex.vertex += center;
-    }
-
     let indices: Vec<usize> = if world_vertices.len() < 3 {
         Vec::new()
     } else {
-- 
2.43.0


From 85dc5f0dee666ed77abf9498c8c7c256ed25a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 20/31] fix: slice the smaller mip levels by their own sizes

---
 src/wad/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ca219ae..350c082 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -293,7 +293,7 @@ fn read_mip_data(
             };
 
             let mip1 = if mip_levels > 1 {
-                let mip1_buf = &mipdata_buf[size0..size1];
+                let mip1_buf = &mipdata_buf[size0..size0 + size1];
                 let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
@@ -304,7 +304,7 @@ fn read_mip_data(
             };
 
             let mip2 = if mip_levels > 2 {
-                let mip2_buf = &mipdata_buf[size0 + size1..size2];
+                let mip2_buf = &mipdata_buf[size0 + size1..size0 + size1 + size2];
                 let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
@@ -315,7 +315,7 @@ fn read_mip_data(
             };
 
             let mip3 = if mip_levels > 3 {
-                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size3];
+                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size0 + size1 + size2 + size3];
                 let (_, mip3) = match mip_level::parser(size3)(mip3_buf) {
                     Ok(mip_level) => mip_level,
                     Err(err) => return Err(format!("Error parsing mip level 3: {:?}", err)),
-- 
2.43.0


From 7437f9f70dc533df9b81b830af1779a3c7d83391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 21/31] fix: report an unknown WAD magic as an error instead of
 panicking

---
 src/wad/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 350c082..5014852 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -105,7 +105,7 @@ pub fn read_textures(
     let wad_type = match header.magic {
         ['W', 'A', 'D', '2'] => WadType::WAD2,
         ['W', 'A', 'D', '3'] => WadType::WAD3,
-        _ => panic!("Unexpected WAD magic: {:?}", header.magic),
+        _ => return Err(format!("Unexpected WAD magic: {:?}", header.magic)),
     };
 
     let now = Instant::now();
-- 
2.43.0


From ff085e8aa0d6050aa2866ba87da76e45b5f964a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 22/31] fix: compute WAD offsets and sizes without overflowing
 32 bits

---
 src/wad/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 5014852..d7c4e62 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -151,9 +151,9 @@ fn read_directory(
 ) -> Result<Vec<Entry>, String> {
     let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
         .map(|i| {
-            let offset = header.dir_offset;
-            let offset = offset + i * ENTRY_BYTES as u32;
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset as u64)) {
+            let offset = header.dir_offset as u64;
+            let offset = offset + i as u64 * ENTRY_BYTES as u64;
+            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset)) {
                 return Err(format!("Error seeking to directory: {:?}", err));
             }
 
@@ -262,12 +262,15 @@ fn read_mip_data(
             };
 
             if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                (entry.offset + miptex.offset1) as u64,
+                entry.offset as u64 + miptex.offset1 as u64,
             )) {
                 return Err(format!("Error seeking to miptex: {:?}", err));
             }
 
-            let size0 = (miptex.width * miptex.height) as usize;
+            let size0 = match miptex.width.checked_mul(miptex.height) {
+                Some(size0) => size0 as usize,
+                None => return Err(format!("Invalid size for texture {:?}", miptex)),
+            };
             let size1 = size0 / 4;
             let size2 = size1 / 4;
             let size3 = size2 / 4;
@@ -337,7 +340,7 @@ fn read_mip_data(
                 WadType::WAD2 => palette = None,
                 WadType::WAD3 => {
                     if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                        (entry.offset + miptex.offset8 + (size3 as u32) + 2) as u64,
+                        entry.offset as u64 + miptex.offset8 as u64 + size3 as u64 + 2,
                     )) {
                         return Err(format!("Error seeking to texture palette: {:?}", err));
                     }
-- 
2.43.0


From 6b5a9f71a80c7e5c9d8c901a464a5870dcee8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 23/31] fix: stop at the first unreadable WAD directory entry

---
 src/wad/mod.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index d7c4e62..5a2ca2d 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -149,7 +149,7 @@ fn read_directory(
     header: &header::Header,
     whitelist: &Option<Vec<String>>,
 ) -> Result<Vec<Entry>, String> {
-    let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
+    let entries: Result<Vec<Option<Entry>>, String> = (0..header.num_entries)
         .map(|i| {
             let offset = header.dir_offset as u64;
             let offset = offset + i as u64 * ENTRY_BYTES as u64;
@@ -183,22 +183,7 @@ fn read_directory(
         })
         .collect();
 
-    if let Some(err) = entries.iter().find_map(|res| match res {
-        Err(err) => Some(err),
-        _ => None,
-    }) {
-        return Err(err.clone());
-    }
-
-    let entries = entries
-        .into_iter()
-        .flat_map(|entry| match entry {
-            Ok(Some(entry)) => Some(entry),
-            _ => None,
-        })
-        .collect();
-
-    Ok(entries)
+    Ok(entries?.into_iter().flatten().collect())
 }
 
 fn read_mip_textures(wad_file: &mut File, directory: &[Entry]) -> Result<Vec<MipTexture>, String> {
-- 
2.43.0


From 5f66febae9bc481b4451e8bd6ec974cd1db88fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 24/31] fix: do not allocate mip data the WAD file does not
 contain

---
 src/wad/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 5a2ca2d..488f092 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -262,17 +262,25 @@ fn read_mip_data(
 
             let sizes = [size0, size1, size2, size3];
             let sizes = Vec::from(&sizes[..mip_levels]);
-            let total_size = sizes.iter().sum();
+            let total_size: usize = sizes.iter().sum();
 
-            let mut mipdata_buf = vec![0u8; total_size];
+            // Read what is there instead of trusting the size in the header with an allocation
+            let mut mipdata_buf = vec![];
 
-            if let Err(err) = wad_file.read_exact(&mut mipdata_buf) {
+            if let Err(err) = (&mut wad_file)
+                .take(total_size as u64)
+                .read_to_end(&mut mipdata_buf)
+            {
                 return Err(format!(
                     "Error reading mipdata for texture {:?}: {:?}",
                     miptex, err
                 ));
             }
 
+            if mipdata_buf.len() < total_size {
+                return Err(format!("Incomplete mipdata for texture {:?}", miptex));
+            }
+
             let mip0_buf = &mipdata_buf[..size0];
 
             let (_, mip0) = match mip_level::parser(size0)(mip0_buf) {
-- 
2.43.0


From 7fbe03a0b48589d7cb9620938161549858ced89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 25/31] fix: round off corners so that those of four or more
 faces are not duplicated

---
 src/geo_builder/brush_plane/vertices.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index ff2a47f..aa10509 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -2,6 +2,7 @@ use crate::map::quake::BrushPlane;
 use crate::Vector3;
 
 const CMP_EPSILON: f64 = 0.001;
+const GRID: f64 = 16_777_216.0;
 
 fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
     [
@@ -52,6 +53,9 @@ pub fn vertex_in_hull(vertex: [f64; 3], hull: &[BrushPlane]) -> bool {
     true
 }
 
+// Rounds off the error of the intersection, so that a corner shared by more than
+// three planes comes out the same from any three of them, also next to zero
 pub fn to_vector3(vertex: [f64; 3]) -> Vector3 {
-    Vector3::new(vertex[0] as f32, vertex[1] as f32, vertex[2] as f32)
+    let coordinate = |i: usize| ((vertex[i] * GRID).round() / GRID) as f32;
+    Vector3::new(coordinate(0), coordinate(1), coordinate(2))
 }
-- 
2.43.0


From b426a6d087c7533ea4de048e2556df5bfcfc8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 26/31] fix: refuse groups nested too deeply instead of
 overflowing the stack

---
 src/lib.rs            |  2 +-
 src/scene_tree/mod.rs | 38 +++++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 782fd1b..870c37d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -80,7 +80,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         &config.texture_blacklist,
         &entity_data,
         &worldspawn_layer_data,
-    );
+    )?;
 
     Ok(scene_tree)
 }
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 496d618..10c9450 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -13,19 +13,22 @@ use crate::{
     },
     geo_builder::{brush, entity},
     map::quake::Entity,
-    Color, TextureBlacklist, Vector2, Vector3, Vertex,
+    Color, QuarchitectError, TextureBlacklist, Vector2, Vector3, Vertex,
 };
 
 mod predicates;
 mod types;
 
+// Groups are built recursively, so a file must not decide how deep the stack gets
+const MAX_GROUP_DEPTH: usize = 128;
+
 pub fn run(
     forge_game_data: &crate::game_data::forge::GameData,
     quarchitect_game_data: &crate::game_data::GameData,
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
     worldspawn_layers: &BTreeMap<String, Vec<brush::Geometry>>,
-) -> Vec<SceneTreeNode> {
+) -> Result<Vec<SceneTreeNode>, QuarchitectError> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
 
@@ -39,29 +42,32 @@ pub fn run(
     entity_data
         .iter()
         .take(1)
-        .flat_map(build_entity(
+        .map(build_entity(
             quarchitect_game_data,
             forge_game_data,
             texture_blacklist,
             entity_data,
-            Vector3::new(0.0, 0.0, 0.0)
+            Vector3::new(0.0, 0.0, 0.0),
+            0
         ))
         .chain(
             worldspawn_layers
                 .iter()
-                .flat_map(build_worldspawn_layer(quarchitect_game_data)),
+                .flat_map(build_worldspawn_layer(quarchitect_game_data))
+                .map(Ok),
         )
         .chain(
             entity_data
                 .iter()
                 .skip(1)
                 .filter(|(entity, _geometry)| entity.properties.get("_tb_group").is_none())
-                .flat_map(build_entity(
+                .map(build_entity(
                     quarchitect_game_data,
                     forge_game_data,
                     texture_blacklist,
                     entity_data,
-                    Vector3::new(0.0, 0.0, 0.0)
+                    Vector3::new(0.0, 0.0, 0.0),
+                    0
                 )),
         )
         .collect()
@@ -72,9 +78,14 @@ fn build_entity<'a>(
     forge_game_data: &'a crate::game_data::forge::GameData,
     texture_blacklist: &'a TextureBlacklist,
     entity_data: &'a [(Entity, entity::Geometry)],
-    origin: Vector3
-) -> impl Fn(&'a (Entity, entity::Geometry)) -> Option<SceneTreeNode> + 'a {
+    origin: Vector3,
+    depth: usize
+) -> impl Fn(&'a (Entity, entity::Geometry)) -> Result<SceneTreeNode, QuarchitectError> + 'a {
     move |(entity, entity_geometry): &(Entity, entity::Geometry)| {
+        if depth > MAX_GROUP_DEPTH {
+            return Err(QuarchitectError("Groups nested too deeply"));
+        }
+
         let mut children: Vec<SceneTreeNode> = Vec::new();
 
         match get_entity_visual_geometry(
@@ -106,18 +117,19 @@ fn build_entity<'a>(
                 let child_group = child_entity.properties.get("_tb_group");
                 child_group.is_some() && child_group == tb_id
             })
-            .flat_map(build_entity(
+            .map(build_entity(
                 quarchitect_game_data,
                 forge_game_data,
                 texture_blacklist,
                 entity_data,
-                -entity_geometry.center
+                -entity_geometry.center,
+                depth + 1
             ))
-            .collect();
+            .collect::<Result<_, _>>()?;
 
         children.append(&mut child_entities);
 
-        Some(SceneTreeNode::entity(
+        Ok(SceneTreeNode::entity(
             entity.properties.get("classname").unwrap().clone(),
             origin + entity_geometry.center,
             get_entity_type(quarchitect_game_data, &entity),
-- 
2.43.0


From 1c33309e7afddd9608e9051f1183713161df1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:00 +0000
Subject: [PATCH 27/31] fix: read each WAD mip level at the offset in its
 header

---
 src/wad/mod.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 488f092..90c74cf 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -246,12 +246,6 @@ fn read_mip_data(
                 Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
             };
 
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                entry.offset as u64 + miptex.offset1 as u64,
-            )) {
-                return Err(format!("Error seeking to miptex: {:?}", err));
-            }
-
             let size0 = match miptex.width.checked_mul(miptex.height) {
                 Some(size0) => size0 as usize,
                 None => return Err(format!("Invalid size for texture {:?}", miptex)),
@@ -267,14 +261,30 @@ fn read_mip_data(
             // Read what is there instead of trusting the size in the header with an allocation
             let mut mipdata_buf = vec![];
 
-            if let Err(err) = (&mut wad_file)
-                .take(total_size as u64)
-                .read_to_end(&mut mipdata_buf)
-            {
-                return Err(format!(
-                    "Error reading mipdata for texture {:?}: {:?}",
-                    miptex, err
-                ));
+            // Each level is stored where the header says, which needs not be behind the previous one
+            let offsets = [
+                miptex.offset1,
+                miptex.offset2,
+                miptex.offset4,
+                miptex.offset8,
+            ];
+
+            for (offset, size) in offsets.iter().zip(sizes.iter()) {
+                if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
+                    entry.offset as u64 + *offset as u64,
+                )) {
+                    return Err(format!("Error seeking to miptex: {:?}", err));
+                }
+
+                if let Err(err) = (&mut wad_file)
+                    .take(*size as u64)
+                    .read_to_end(&mut mipdata_buf)
+                {
+                    return Err(format!(
+                        "Error reading mipdata for texture {:?}: {:?}",
+                        miptex, err
+                    ));
+                }
             }
 
             if mipdata_buf.len() < total_size {
-- 
2.43.0


From dfcdce31e6cb0b7f8b85e8a15fb71c753b58367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:59 +0000
Subject: [PATCH 28/31] fix: a phong angle below 0 acted like its positive, one
 above 180 wrapped

---
 src/geo_builder/brush_plane/normals.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/normals.rs b/src/geo_builder/brush_plane/normals.rs
index 0aaba39..b1d2282 100644
--- a/src/geo_builder/brush_plane/normals.rs
+++ b/src/geo_builder/brush_plane/normals.rs
@@ -20,7 +20,9 @@ fn phong_normal(
 ) -> Vector3 {
     if let Some(phong_angle) = phong_angle {
         if let Ok(phong_angle) = phong_angle.parse::<f32>() {
-            let threshold = ((phong_angle + 0.01) * ONE_DEGREE).cos();
+            // Faces meet at 0 to 180 degrees, beyond which the cosine would mirror the angle
+            let phong_angle = (phong_angle + 0.01).max(0.0).min(180.0);
+            let threshold = (phong_angle * ONE_DEGREE).cos();
             let mut normal = p0.normal();
             if p0.normal().dot(p1.normal()) > threshold {
                 normal += p1.normal()
-- 
2.43.0


From 399d755a86dfe2b7771b1db7d077629c7a927f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:28 +0000
Subject: [PATCH 29/31] fix: convex collision without brushes made nodes with
 nothing in them

---
 src/scene_tree/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 10c9450..ca49f08 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -679,6 +679,10 @@ fn get_entity_convex_collision(entity_geometry: &entity::Geometry) -> CollisionG
         })
         .collect();
 
+    if convex_shapes.is_empty() {
+        return CollisionGeometry::None;
+    }
+
     CollisionGeometry::convex(convex_shapes)
 }
 
-- 
2.43.0


From d19f0e564fcbca1a2e833ffd6a644ebd143c63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:49 +0000
Subject: [PATCH 30/31] fix: face lines with other symbols in place of their
 brackets were misread

---
 src/map/quake/types/brush_plane.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index 73b6638..6c771c0 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -86,6 +86,14 @@ fn parse_number(comp: Option<&str>) -> Result<f32, QuarchitectError> {
     }
 }
 
+fn parse_symbol(comp: Option<&str>, symbol: &str) -> Result<(), QuarchitectError> {
+    if comp == Some(symbol) {
+        Ok(())
+    } else {
+        Err(QuarchitectError("Unexpected symbol in brush plane"))
+    }
+}
+
 // Brush Plane
 #[derive(PartialEq, Debug)]
 pub struct BrushPlane {
@@ -108,11 +116,11 @@ impl BrushPlane {
         let mut v2 = Vector3::new(0.0, 0.0, 0.0);
 
         for i in 0..3 {
-            comps.next();
+            parse_symbol(comps.next(), "(")?;
             let x: f32 = parse_number(comps.next())?;
             let y: f32 = parse_number(comps.next())?;
             let z: f32 = parse_number(comps.next())?;
-            comps.next();
+            parse_symbol(comps.next(), ")")?;
 
             let v = match i {
                 0 => &mut v0,
@@ -131,26 +139,29 @@ impl BrushPlane {
             None => return Err(QuarchitectError("Missing texture in brush plane")),
         };
 
-        let uv = match parse_number(comps.next()) {
+        let alignment = comps.next();
+        let uv = match parse_number(alignment) {
             Ok(u) => {
                 let v: f32 = parse_number(comps.next())?;
                 UV::standard(u, v)
             }
             Err(_err) => {
+                parse_symbol(alignment, "[")?;
+
                 let ux: f32 = parse_number(comps.next())?;
                 let uy: f32 = parse_number(comps.next())?;
                 let uz: f32 = parse_number(comps.next())?;
                 let uo: f32 = parse_number(comps.next())?;
 
-                comps.next();
-                comps.next();
+                parse_symbol(comps.next(), "]")?;
+                parse_symbol(comps.next(), "[")?;
 
                 let vx: f32 = parse_number(comps.next())?;
                 let vy: f32 = parse_number(comps.next())?;
                 let vz: f32 = parse_number(comps.next())?;
                 let vo: f32 = parse_number(comps.next())?;
                 
-                comps.next();
+                parse_symbol(comps.next(), "]")?;
 
                 UV::valve(Vector3::new(ux, uy, uz), uo, Vector3::new(vx, vy, vz), vo)
             }
-- 
2.43.0


From 81f897c8ee29efa7cd945ed5f9936081612938bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:49 +0000
Subject: [PATCH 31/31] fix: faces at exactly 45 degrees between x and y took
 the other axis than Quake

Quake's tools compare the axes in the order z, x, y and keep the first of
several equally close ones; standard faces and their tangents preferred y
over x, which mirrored or shifted textures of diagonal walls.
---
 src/geo_builder/brush_plane/tangents.rs | 4 ++--
 src/geo_builder/brush_plane/uvs.rs      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geo_builder/brush_plane/tangents.rs b/src/geo_builder/brush_plane/tangents.rs
index 4ede688..673e7fb 100644
--- a/src/geo_builder/brush_plane/tangents.rs
+++ b/src/geo_builder/brush_plane/tangents.rs
@@ -26,10 +26,10 @@ fn standard_tangent(brush_plane: &BrushPlane) -> (Vector3, f32) {
 
     if du_abs >= dr_abs && du_abs >= df_abs {
         tangent = Some((forward_vector, du.signum()));
-    } else if dr_abs >= du_abs && dr_abs >= df_abs {
-        tangent = Some((forward_vector, -dr.signum()));
     } else if df_abs >= du_abs && df_abs >= dr_abs {
         tangent = Some((right_vector, df.signum()));
+    } else if dr_abs >= du_abs && dr_abs >= df_abs {
+        tangent = Some((forward_vector, -dr.signum()));
     }
 
     match tangent {
diff --git a/src/geo_builder/brush_plane/uvs.rs b/src/geo_builder/brush_plane/uvs.rs
index c807541..bdd5c5c 100644
--- a/src/geo_builder/brush_plane/uvs.rs
+++ b/src/geo_builder/brush_plane/uvs.rs
@@ -24,12 +24,12 @@ fn standard_uv(vertex: Vector3, brush_plane: &BrushPlane, texture: &Texture) ->
     if du >= dr && du >= df {
         x = vertex.x();
         y = -vertex.y();
-    } else if dr >= du && dr >= df {
-        x = vertex.x();
-        y = -vertex.z();
     } else if df >= du && df >= dr {
         x = vertex.y();
         y = -vertex.z();
+    } else if dr >= du && dr >= df {
+        x = vertex.x();
+        y = -vertex.z();
     }
     else {
         panic!("Zero-length normal");
-- 
2.43.0

