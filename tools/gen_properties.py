#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
S = "src/scene_tree/mod.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["quarchitect::run"]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "Every map entity becomes exactly one actor in the right place of the tree",
  "For a well-formed map, the scene tree holds exactly one actor per map entity, named by its classname: the worldspawn entity first (wherever it stands in the file, and also when it names a group itself), then the ungrouped entities in file order, and every grouped entity (`_tb_group`) once, in file order, beneath the entity whose `_tb_id` it names, at any nesting depth up to 128 levels (deeper maps are refused). Nothing is lost, duplicated or invented, also when group members come before their group in the file, and when several entities claim the same `_tb_id` the members appear under the first of them only.",
  ["inputs","configurations"], "all well-formed maps: entity counts, file orders, group nestings, game-data configurations",
  "The existing tests never run the map pipeline; structure must hold for every entity order and group forest.",
  [S,"src/layer_filter/mod.rs","src/map/quake/parser.rs"],
  [("tree assembly","src/scene_tree/mod.rs: run, build_entity"),("worldspawn moved first","src/layer_filter/mod.rs: run")])
p("C02", "Actor positions are relative to their parent and compose to map positions",
  "Summing node origins from the root to any actor gives the entity's map position: its `origin` property when present (missing or unreadable components count as 0), otherwise the mean of its brushes' centres, where a brush's centre is the mean of its faces' centres and a face's centre is the mean of its corners. Worldspawn layers sit at the map origin, and the visual and collision nodes of an entity carry the entity's own map position.",
  ["inputs"], "all maps with valid brushes (including brushes with redundant planes), any origin and any group nesting",
  "No test builds an entity with geometry or groups; position arithmetic depends on nesting depth and on every brush shape.",
  [S,"src/geo_builder/entity/mod.rs","src/geo_builder/brush/mod.rs","src/geo_builder/brush_plane/mod.rs"],
  [("relative origin","src/scene_tree/mod.rs: build_entity"),("centres","src/geo_builder/{entity,brush,brush_plane}/mod.rs")])
p("C03", "Game data decides each actor's type, script, and geometry kinds",
  "Each entity's actor has the entity type, component script and property-application mode of the first game-data definition with its classname, and has a visual node only if that definition is a brush entity with mesh visuals and a collision node only if it is a brush entity with convex or concave collision (of that kind). An entity without brushes has neither node. An entity whose classname has no definition is a placeholder without script or geometry.",
  ["inputs","configurations"], "all game-data configurations (including several definitions of one classname) against all maps",
  "Tests only print FGD text; the mapping from configuration to actors is never exercised.",
  [S,"src/game_data/types/entity.rs","src/game_data/types/point_data.rs"],
  [("lookups","src/scene_tree/mod.rs: get_entity_type, get_entity_component_class, get_entity_property_application_type, get_entity_visual_geometry, get_entity_collision_geometry")])
p("C04", "Entity properties are typed by their FGD definition, with its defaults",
  "An actor carries exactly the properties its FGD entity defines, each of the defined kind (integer, float, vector, string, colour, choices, flags, target source, target destination), with the value the map gives when it can be read as that kind and the definition's default otherwise, plus the editor's `_tb_id`/`_tb_group` as integers and `_tb_type`/`_tb_name` as strings when the map sets them. Colour values, written 0-255 in maps and FGD text, arrive as 0-1 components; a classname without FGD definition yields no properties; nothing undefined leaks through.",
  ["inputs","configurations"], "all FGD definitions and all textual property values, well-formed or not",
  "Tests cover FGD printing of one value per kind and never the reading of map values.",
  [S,"src/game_data/types/properties.rs","src/game_data/forge/property.rs"],
  [("typing and defaults","src/scene_tree/mod.rs: get_entity_properties, parse_vector3_property, parse_color_property")])
p("C05", "A property left at its FGD default means the same as leaving it out",
  "For every FGD property with a default, a map entity that spells out the default exactly as the generated FGD text gives it yields the same actor property (kind and value; colours to within the FGD's 1/255 resolution) as an entity that omits the key.",
  ["inputs","configurations"], "all property kinds and default values, through the generated FGD text and back through a map",
  "Relates two outputs (FGD text and scene tree) that no test connects, for every kind and value.",
  ["src/scene_tree/mod.rs","src/game_data/forge/property.rs","src/types/color.rs"],
  [("printing defaults","src/game_data/forge/property.rs: to_string"),("reading values","src/scene_tree/mod.rs: get_entity_properties")],
  observe=["quarchitect::run","game_data::forge::GameData::to_string"])
p("C06", "Map spelling that carries no meaning does not change the result",
  "The result is unchanged by comment lines, blank lines and unrecognised text lines anywhere in the map file, LF or CRLF line ends, a missing final newline, the order of an entity's property lines or their position relative to its brushes, extra white space inside a face line, white space or a comment behind a brace or a property, other white space between a property's key and value, equivalent spellings of numbers, and the letter case of texture names; and the order of a brush's faces changes nothing but the order of the output.",
  ["inputs"], "all well-formed maps and all combinations of those respellings",
  "Tests never parse a map.",
  ["src/map/quake/tokenizer.rs","src/map/quake/parser.rs","src/map/quake/types/brush_plane.rs"],
  [("line classification","src/map/quake/tokenizer.rs: run"),("face line parsing","src/map/quake/types/brush_plane.rs: BrushPlane::new")])
p("C07", "No map text crashes the pipeline",
  "Whatever the bytes of the map file (truncated, corrupted, or arbitrary text with non-finite or huge numbers, degenerate planes, odd group references), building a scene from it either succeeds or returns an error; it never panics, aborts or overflows the stack.",
  ["inputs","configurations"], "all byte strings of moderate size as map files, including mutations of valid maps",
  "Tests never give the parser malformed input; the claim is over all inputs.",
  ["src/map/quake/tokenizer.rs","src/map/quake/parser.rs","src/map/quake/types/brush_plane.rs","src/layer_filter/mod.rs","src/scene_tree/mod.rs","src/geo_builder/brush_plane/vertices.rs"],
  [("error results","src/map/quake/parser.rs: run; src/map/quake/types/brush_plane.rs: BrushPlane::new; src/layer_filter/mod.rs: run; src/lib.rs: run")])
p("C08", "Structurally wrong maps are refused, right ones are accepted",
  "A map is accepted if its braces nest as entities containing brushes, properties stand directly in entities, face lines stand directly in brushes and are complete (three numeric points, texture, numeric alignment in standard or Valve form, rotation, two scales, and none, one, three or six numeric extra values), every entity has a classname and exactly one is worldspawn. It is refused with an error, not silently misread, when a brace or property or face line stands in a scope that does not allow it, a face line is incomplete, has a non-numeric field, a misplaced bracket or another number of extra values, the file ends inside an entity or brush, an entity lacks a classname, or there is no worldspawn or more than one.",
  ["inputs"], "all sequences of map lines, generated both well-formed and with one or more structural faults",
  "Tests never parse a map; acceptance is decided over all line sequences.",
  ["src/map/quake/parser.rs","src/map/quake/types/brush_plane.rs","src/layer_filter/mod.rs","src/lib.rs"],
  [("scope state machine","src/map/quake/parser.rs: run"),("face line parser","src/map/quake/types/brush_plane.rs"),("singleton check","src/layer_filter/mod.rs")])
p("C09", "Each face's polygon is exactly its share of the brush's convex hull",
  "For every brush (a bounded intersection of half-spaces, at any map position, with sharp or blunt angles, small bevels, redundant planes or many sides), the vertices produced for a face are exactly the corners of the polygon where its plane meets the brush, to within single-precision rounding: none missing, none extra. A redundant plane produces no vertices.",
  ["inputs"], "all convex brushes anywhere in the map whose features are larger than 0.01 units and whose corners lie on three planes that are not nearly parallel (determinant of the unit normals above 0.002), no plane given twice; the code documents an epsilon below which it takes planes for parallel",
  "Tests contain no geometry at all; correctness must hold for every plane configuration.",
  ["src/geo_builder/brush_plane/vertices.rs","src/geo_builder/brush_plane/mod.rs"],
  [("plane intersection and hull test","src/geo_builder/brush_plane/vertices.rs"),("unique vertices","src/geo_builder/brush_plane/mod.rs: build")])
p("C10", "Face triangulation covers the polygon once, with one winding",
  "The triangles of every face lie on its corners, all wind clockwise seen from outside the brush, do not overlap and together cover exactly the face's polygon; index lists are whole triangles and in range. A brush's triangles together therefore enclose its volume.",
  ["inputs"], "all convex brushes and all choices and orders of the plane-defining points",
  "No test triangulates a face; the sort and fan must hold for every polygon size and orientation.",
  ["src/geo_builder/brush_plane/mod.rs","src/scene_tree/mod.rs"],
  [("angular sort and fan","src/geo_builder/brush_plane/mod.rs: build"),("index offsets","src/scene_tree/mod.rs: gather_entity_geometry, gather_brush_geometry")])
p("C11", "Texture coordinates follow the face's projection, rotation, scale and offset",
  "Every vertex of a face with a known texture has texture coordinates equal to the Quake standard or Valve 220 formula: in standard faces the map position projected along the axis closest to the face normal (where several are equally close, the first of z, x and y, as in Quake), that is (x,-y), (y,-z) or (x,-z), turned by the face's rotation, divided by scale and texture size, plus the offset over texture size; in Valve faces the position along the two given axes, divided by scale and texture size, plus the offset over texture size. Faces with unknown texture have no texture coordinates.",
  ["inputs"], "all faces, projections (including exact 45 degree ties), rotations, scales of either sign, offsets and texture sizes",
  "No test computes a texture coordinate.",
  ["src/geo_builder/brush_plane/uvs.rs","src/types/texture.rs"],
  [("standard and Valve formulas","src/geo_builder/brush_plane/uvs.rs")])
p("C12", "Vertex normals are the face normal, or the phong blend when asked for",
  "Every vertex normal has unit length and equals its face's outward normal unless the entity sets `_phong` to 1; then, at a corner where three faces meet, it is the normalised sum of the face's normal and those other two faces' normals that lie within `_phong_angle` degrees of it (all of them without a readable angle). Phong settings of one entity do not affect another.",
  ["inputs","configurations"], "all convex brushes, phong on or off, every angle from 0 to 180 degrees and unreadable ones",
  "No test computes a normal.",
  ["src/geo_builder/brush_plane/normals.rs","src/geo_builder/brush_plane/mod.rs"],
  [("phong","src/geo_builder/brush_plane/normals.rs"),("normal aggregation","src/geo_builder/brush_plane/mod.rs: build")])
p("C13", "Vertex tangents follow the texture's U axis, with matching handedness",
  "In standard faces the tangent is the projection's unturned U axis turned about the face normal by the face's rotation in the same sense as the texture itself, so on an axis-aligned face it points along growing U (before any mirroring by a negative horizontal scale); in Valve faces it is the given U axis. The handedness sign is +1 or -1 such that sign times (normal cross tangent) points towards decreasing V, for either sign of the vertical scale and in both formats.",
  ["inputs"], "all faces with texture axes that are not degenerate against the face, all rotations and scales of either sign",
  "No test computes a tangent.",
  ["src/geo_builder/brush_plane/tangents.rs"],
  [("standard and Valve tangents","src/geo_builder/brush_plane/tangents.rs")])
p("C14", "Faces are grouped by texture into surfaces, minus the blacklisted ones",
  "An entity's visual mesh has exactly one surface per known texture that has a visible face, plus one untextured surface for visible faces whose texture has no size information, and each surface holds exactly its faces. A face is invisible exactly when its texture is on the plane blacklist, or when every face of its brush has a texture on the brush blacklist (whether or not the texture's size is known); an entity without visible faces has no visual node.",
  ["inputs","configurations"], "all assignments of textures to faces, all texture tables and blacklists",
  "No test builds a mesh or uses a blacklist.",
  [S,"src/scene_tree/predicates/brush.rs","src/scene_tree/predicates/plane.rs","src/scene_tree/predicates/texture.rs","src/types/texture.rs"],
  [("surface building","src/scene_tree/mod.rs: get_brush_entity_visual_geometry, build_brush_entity_texture_surface"),("predicates","src/scene_tree/predicates")])
p("C15", "Merging faces into a surface changes no triangle and no vertex attribute",
  "The triangles of a merged surface, with position, normal, tangent, texture coordinate and face colour at each corner, are exactly the triangles its faces have when every face is put into a surface of its own. Within one brush's share of a surface no two vertices are identical in all attributes (the face's colour counts even where the surface lists no colours), attribute lists have equal length, and every index is in range.",
  ["inputs","configurations"], "all maps, comparing any sharing of textures between faces with the all-distinct assignment, flat or phong shaded, textured or untextured",
  "A metamorphic relation over pairs of maps; no test builds even one mesh.",
  [S,"src/scene_tree/predicates/vertex.rs"],
  [("deduplication and index remapping","src/scene_tree/mod.rs: filter_vertices, gather_brush_geometry, gather_entity_geometry"),("vertex identity","src/scene_tree/predicates/vertex.rs")])
p("C16", "Convex collision has one shape per brush, holding exactly its corners",
  "With convex collision an entity has one shape per brush, in map order, each with exactly the brush's corner points (every position once) and the brush's centre. Blacklists, textures and phong do not affect it.",
  ["inputs","configurations"], "all brush entities and texture/blacklist configurations",
  "No test builds collision geometry.",
  [S], [("convex collision","src/scene_tree/mod.rs: get_entity_convex_collision")])
p("C17", "Concave collision is the complete closed surface of all brushes",
  "With concave collision an entity has one shape whose triangles are exactly the face triangles of all its brushes, including blacklisted and untextured faces, so that they enclose the total volume of the brushes with outward sides consistent. Within a brush no position is listed twice, indices are whole triangles and in range, and brushes share no vertices with each other.",
  ["inputs","configurations"], "all brush entities, numbers of brushes and texture/blacklist configurations",
  "No test builds collision geometry.",
  [S,"src/scene_tree/predicates/vertex.rs"], [("concave collision","src/scene_tree/mod.rs: get_entity_concave_collision, gather_entity_geometry, filter_vertices")])
p("C18", "Worldspawn liquid brushes move to their layer, all other brushes stay",
  "A worldspawn brush whose faces all have the known texture `*water0` (or all `*slime0`) is taken out of worldspawn and put in that texture's layer node, and every other brush stays in its entity, so each brush occurs exactly once. A layer node exists when the game data defines exactly one layer for the texture and it has something to show, and has the layer's name, type, script, a mesh of that one surface and collision of the configured kind; brushes of other entities are never moved.",
  ["inputs","configurations"], "all mixtures of liquid and ordinary brushes and faces in worldspawn and other entities, and all layer configurations",
  "No test runs the layer filter.",
  ["src/layer_filter/mod.rs",S,"src/game_data/types/worldspawn_layer.rs"],
  [("partition","src/layer_filter/mod.rs: run"),("layer nodes","src/scene_tree/mod.rs: build_worldspawn_layer")])
p("C19", "Every face dialect is read alike, and face colours reach the vertices",
  "A brush gives the same geometry whichever game's face line it is written in (standard or Valve alignment, each plain or with one extra value, three surface values, or three surface values and a colour). Vertices carry the face's colour exactly as written when all faces of the surface have one, and no colours otherwise.",
  ["inputs"], "all maps in every dialect, including mixtures of dialects in one brush, with arbitrary extra values",
  "Tests never parse a map.",
  ["src/map/quake/types/brush_plane.rs","src/map/types/uv.rs","src/geo_builder/brush_plane/mod.rs",S],
  [("dialect detection","src/map/quake/types/brush_plane.rs: BrushPlane::new, ExtraData")])
p("C20", "The same input always gives the same scene tree",
  "Building a scene repeatedly from the same file and configuration, in one process, on several threads at once or in separate processes, gives identical trees: same nodes in the same order with bit-identical numbers.",
  ["inputs","schedules","configurations"], "all maps and configurations, repeated runs, concurrent runs and separate processes with different hash seeds",
  "Needs repeated runs over inputs that hit hash-ordered containers; no test runs the pipeline once.",
  ["src/lib.rs",S,"src/layer_filter/mod.rs"], [("ordered layers","src/layer_filter/mod.rs: run; src/scene_tree/mod.rs: run")])
p("C21", "Entities and brushes are built independently of each other",
  "Adding, removing or reordering other entities (other than an entity's own group parent) leaves an entity's actor, properties and geometry unchanged, and adding a brush to an entity leaves the polygons, normals, tangents and texture coordinates of its other brushes unchanged.",
  ["inputs"], "all pairs of maps that differ by unrelated entities or brushes",
  "A metamorphic relation over pairs of maps; no test runs the pipeline.",
  ["src/geo_builder",S,"src/map/quake/parser.rs"], [("per-entity and per-brush construction","src/geo_builder/entity/mod.rs, src/geo_builder/brush/mod.rs, src/scene_tree/mod.rs: build_entity")])
p("C22", "Moving, turning or scaling a map moves, turns or scales the geometry",
  "Translating all brushes and origins by a vector, turning them by a quarter turn about an axis, or scaling them by a power of two translates, turns or scales every vertex, centre, collision point and actor position alike and keeps every face's outline and winding; flat normals turn along. Defining a plane by other points on it, or rotating its three points, keeps all of these too, and the textures.",
  ["inputs"], "all maps and all such motions",
  "A metamorphic relation over pairs of maps; no test runs the pipeline.",
  ["src/geo_builder/brush_plane/vertices.rs","src/geo_builder/brush_plane/mod.rs","src/geo_builder/brush/mod.rs","src/geo_builder/entity/mod.rs",S],
  [("geometry building","src/geo_builder")])
p("C23", "Generated FGD text says exactly what the game data says",
  "The FGD text of any game data, read back by the FGD grammar, gives the same name comment, includes in order, and classes in order with the same kind, base classes, colour (0-255, truncated), size, name, description and properties: name, kind, descriptions, default (numbers exactly), every choice with its value and label, every flag with its bit value, label and whether it is on by default.",
  ["configurations","inputs"], "all game data whose texts contain no quotes or line breaks, any number of includes, classes, metadata, properties, choices and up to 31 flags",
  "Tests compare fixed strings for one small example each.",
  ["src/game_data/forge/game_data.rs","src/game_data/forge/entity.rs","src/game_data/forge/metadata.rs","src/game_data/forge/property.rs","src/game_data/forge/choice.rs","src/types/color.rs"],
  [("printing","src/game_data/forge/*.rs: to_string")], observe=["game_data::forge::GameData::to_string"])
p("C24", "Saving game data writes exactly its text, or reports the failure",
  "Saving game data leaves a file with exactly the FGD text, replacing whatever was there before (longer or shorter), and saving the same data again gives the same bytes. When the file cannot be written completely (missing directory, directory in the way, full device) the save returns an error and does not panic.",
  ["fault_sequences","configurations","histories"], "all game data, sequences of saves over the same paths, and write failures",
  "No test calls save.",
  ["src/game_data/forge/game_data.rs"], [("save","src/game_data/forge/game_data.rs: save")], observe=["game_data::forge::GameData::save"])
p("C25", "WAD textures decode to exactly the stored pixels",
  "Reading a well-formed WAD2 or WAD3 file returns, in directory order, every texture entry with its header (lower-cased name, width, height, mip offsets) and exactly the stored palette indices of the requested mip levels (level n has width times height over 4^n pixels), and for WAD3 exactly its own stored palette; textures of a WAD2 have no palette. Each texture's pixels and palette go with its own header, wherever in the file they are stored.",
  ["inputs"], "all well-formed WAD2/WAD3 files (sizes multiples of 8; a palette follows the smallest mip level): storage places of the mip levels,: entry counts, storage orders, directory positions, names, sizes and pixel contents, and 1 to 4 mip levels",
  "No test reads a WAD.",
  ["src/wad/mod.rs","src/wad/header.rs","src/wad/entry.rs","src/wad/mip_texture.rs","src/wad/mip_level.rs","src/wad/palette.rs"],
  [("reading","src/wad/mod.rs: read_textures, read_directory, read_mip_textures, read_mip_data")], observe=["wad::read_textures"])
p("C26", "WAD whitelist and mip count select, and change nothing else",
  "Entries that are not textures are skipped; with a whitelist exactly the texture entries whose directory name is listed are returned, in directory order; with n mip levels exactly the first n are present. Every texture returned by a restricted read equals the one an unrestricted read returns.",
  ["inputs","configurations"], "all WAD files mixing textures (directory types C and D) and other lumps, all whitelists and all mip counts",
  "No test reads a WAD.",
  ["src/wad/mod.rs"], [("filters","src/wad/mod.rs: read_directory, read_mip_data")], observe=["wad::read_textures"])
p("C27", "RGB conversion looks every pixel up in the right palette",
  "Converting a texture to RGB keeps its header and, in every present mip level, replaces each index by that entry of its palette: the texture's own palette if it has one (a supplied palette is then ignored), otherwise the supplied one; without either it returns an error. A palette file yields its first 256 colour triples, and a shorter or missing file an error.",
  ["inputs","configurations"], "all textures, palettes, palette files of any length, and all combinations of own and supplied palettes",
  "No test converts a texture or reads a palette.",
  ["src/wad/mod.rs","src/wad/mip_data.rs","src/wad/palette.rs","src/wad/color.rs"],
  [("conversion","src/wad/mod.rs: into_rgb; src/wad/mip_data.rs: from_indexed"),("palette file","src/wad/palette.rs: read_palette")], observe=["wad::TextureIndexed::into_rgb","wad::palette::read_palette"])
p("C28", "A damaged WAD file is refused with an error, not a crash",
  "Whatever the bytes of the file (wrong magic, truncation at any byte, absurd counts, offsets or sizes, arbitrary corruption), reading textures from it returns either textures or an error; it never panics, aborts, overflows arithmetic, or allocates memory out of proportion to the file. A file cut off inside data that the read needs, or with an unknown magic, gives an error.",
  ["inputs","fault_sequences"], "all byte strings as WAD files, including every truncation and field corruption of valid ones",
  "No test reads a WAD.",
  ["src/wad/mod.rs","src/wad/header.rs","src/wad/entry.rs","src/wad/mip_texture.rs"],
  [("error results","src/wad/mod.rs: read_textures, read_directory, read_mip_textures, read_mip_data")], observe=["wad::read_textures"])
p("C29", "WAD reading does not depend on threads",
  "Reading the same WAD with any number of worker threads, or from several threads at once, gives the same textures in the same order, and the same success or error.",
  ["schedules","inputs"], "all WAD files (valid and damaged), thread-pool sizes and concurrent readers",
  "No test reads a WAD; ordering under parallel decoding needs many entries and pool sizes.",
  ["src/wad/mod.rs"], [("parallel decoding","src/wad/mod.rs: read_mip_data")], observe=["wad::read_textures"])
p("C30", "The token diff is empty for equal maps and otherwise complete and minimal",
  "Diffing two map files reports the removed and added lines' tokens, each list in file order, such that deleting the removed tokens from the first and the added ones from the second leaves the same token sequence, and that sequence is as long as possible. It is therefore empty exactly when the token sequences are equal, also for empty files, repeated lines and differences in the last line; swapping the files swaps the lists' sizes.",
  ["inputs"], "all pairs of files, in particular edits (insert, delete, change, move, duplicate lines) of one another",
  "No test runs the diff.",
  ["src/map/quake/tokenizer.rs","src/lib.rs"], [("longest common subsequence","src/map/quake/tokenizer.rs: diff_tokens")], observe=["quarchitect::run_diff (standard output)"])
p("C31", "Unreadable input files give errors, not crashes or partial results",
  "Building a scene, diffing, reading WAD textures or reading a palette from a path that is missing, a directory, or (for maps) not valid UTF-8 returns an error; nothing panics or changes the files, and the same call succeeds as usual once the file is there.",
  ["fault_sequences","histories"], "all sequences of such faults and successful calls on all entry points",
  "No test passes a file to any entry point.",
  ["src/lib.rs","src/wad/mod.rs","src/wad/palette.rs"], [("error propagation","src/lib.rs: run, run_diff; src/wad/mod.rs: read_textures; src/wad/palette.rs: read_palette")],
  observe=["quarchitect::run","quarchitect::run_diff","wad::read_textures","wad::palette::read_palette"])

p("C32", "Settings that nothing refers to, and the order of settings, change nothing",
  "The scene tree stays the same in every bit when the configuration or the map gains settings that nothing in the map refers to (game-data or FGD classes of other names, sizes or blacklist entries of textures the map does not use, layers for textures that have none, entity properties that neither the FGD class defines nor the map format gives a meaning) or repeats, and when game-data and FGD classes of different names, FGD properties, texture sizes, layers or blacklist entries are listed in another order. FGD descriptions, base classes, class kinds and the labels of choices and flags do not affect the tree either.",
  ["inputs","configurations"], "all scenes, all additions of unused settings with similar names, all orders of the configuration",
  "A relation between runs on different configurations; no test runs the pipeline at all.",
  [S,"src/scene_tree/predicates/plane.rs","src/types/texture.rs","src/map/quake/types/entity.rs"],
  [("lookups by exact name","src/scene_tree/mod.rs; src/types/texture.rs: is_blacklisted_*; src/geo_builder/brush_plane/mod.rs: build")])
p("C33", "Kinds have fixed integer codes, and FGD classes are identified by name",
  "The integer codes by which an engine sees FGD class types, visual, collision, entity and component types and metadata number the kinds in their declared order from 0 whatever the kind carries, and class, visual and collision types read back from their codes unchanged. FGD classes are equal exactly when their names are, and equal ones hash alike.",
  ["inputs"], "all kinds with all payloads and all pairs of FGD classes",
  "No test converts a kind to its code or back, or compares classes.",
  ["src/game_data/types/visual_type.rs","src/game_data/types/collision_type.rs","src/game_data/types/entity_type.rs","src/game_data/types/component_type.rs","src/game_data/forge/entity.rs","src/game_data/forge/metadata.rs"],
  [("conversions","Into<i64>/From<i64> in src/game_data/types/*.rs and forge/entity.rs, From<Metadata> for i32"),("identity","src/game_data/forge/entity.rs: PartialEq, Hash")],
  observe=["quarchitect::game_data"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, q["id"]
    assert q["statement"].count(". ") <= 2, (q["id"], q["statement"].count(". "))
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
