#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
FAULT = {"C24", "C28", "C31"}
T = {
"C01": ("generated maps vs reference scene tree (proptest)", "the reference model rebuilds actor order and group nesting from the map document the text was printed from"),
"C02": ("generated maps vs exact-geometry reference positions (proptest)", "positions compared with a tolerance of single-precision rounding at the map's extent; f64 reference geometry"),
"C03": ("generated configurations x maps vs reference lookup (proptest)", "first-definition-wins lookup recomputed independently from the configuration"),
"C04": ("generated FGD definitions x property texts vs reference typing (proptest)", "reference typing written from the documented kinds; texts limited to those whose reading the definition settles"),
"C05": ("round trip FGD text -> map -> property (proptest)", "defaults are taken from the generated FGD text by an independent reader; K1 (choices whose default's value differs from its position) is excluded by construction and reported as known"),
"C06": ("metamorphic: respelled map text gives the same tree (proptest)", "bit-identical trees except for face order, where corners may be fanned from another start"),
"C07": ("structured and byte-level fuzzing with crash oracle in isolated processes (proptest)", "panic, abort and stack overflow are seen; every case runs in a worker process with a normal 8 MB main-thread stack"),
"C08": ("grammar-based mutation vs reference acceptor (proptest)", "acceptor written from the map grammar; texts whose reading is not settled by the property are left out and counted"),
"C09": ("differential: face corners vs exact half-space intersection (proptest)", "exact rational/f64 reference hull; corners closer than rounding are excluded by construction"),
"C10": ("validity predicate on triangulations: area, winding, coverage (proptest)", "areas compared within rounding; polygons from the reference hull"),
"C11": ("differential: texture coordinates vs reference formulas (proptest)", "f64 formulas; faces exactly at 45 degrees take the first of z, x and y, those within rounding of it any nearest axis"),
"C12": ("differential: normals and phong blend vs reference (proptest)", "angles closer to the limit than 0.004 degrees (0.3 for nearly parallel faces) are moved away from it, equal ones kept"),
"C13": ("differential + metamorphic: tangent against growing U/V (proptest)", "sense taken from the texture coordinates themselves and from the given axes"),
"C14": ("generated blacklists/textures vs reference surface partition (proptest)", "surfaces compared as a map from texture to the multiset of faces"),
"C15": ("differential: merged surface vs one surface per face (proptest)", "same program run with unique textures per face as the oracle, corner by corner"),
"C16": ("differential: convex points vs exact corners (proptest)", "single-precision rounding tolerance"),
"C17": ("differential + volume invariant on concave shapes (proptest)", "face triangles of the reference hull; enclosed volume"),
"C18": ("generated worldspawn liquids vs reference layers (proptest)", "brush multiset conservation plus reference layer rule"),
"C19": ("metamorphic: one brush in every dialect (proptest)", "same faces written in each dialect give bit-identical geometry"),
"C20": ("repetition in one process, threads and processes (proptest)", "bit-identical trees; hash seeds differ between processes and between maps of one process"),
"C21": ("metamorphic: adding/removing/reordering entities and brushes (proptest)", "per-actor comparison of everything but group members"),
"C22": ("metamorphic: translation, quarter turns, power-of-two scaling, other plane points (proptest)", "tolerance of single-precision rounding at the larger extent"),
"C23": ("round trip: FGD text read back by an independent parser (proptest)", "grammar written from FGD's documentation; free text without quotes and line breaks"),
"C24": ("fault enumeration on save + model of file contents (proptest)", "file size limits, missing/blocked paths and full device injected"),
"C25": ("round trip: generated WAD2/WAD3 files vs their known contents (proptest)", "writer and expected textures share one document"),
"C26": ("metamorphic: restricted vs unrestricted reads (proptest)", "reference from the generating document"),
"C27": ("differential: RGB conversion vs table lookup (proptest)", "reference lookup from the generating document"),
"C28": ("fault enumeration and byte fuzzing of WAD files with reference reader (proptest)", "panic, abort and memory use (counting allocator) are seen; a reference reader decides which damage must be refused"),
"C29": ("repetition over thread pools and concurrent readers (proptest)", "the operating system schedules; thread counts 1 to 16"),
"C30": ("generated token histories vs LCS reference and subsequence validity (proptest)", "any minimal diff is accepted"),
"C31": ("fault enumeration over unreadable paths (proptest)", "every entry point x every kind of unreadable path, then the repaired path"),
"C32": ("metamorphic: unused and reordered settings (proptest)", "bit-identical printed trees; the names added are mostly similar to names in use"),
"C33": ("generated kinds and pairs vs declared order (proptest)", "codes outside the declared range are not converted, since the conversion documents a panic for them"),
}
m = {"version": 1,
 "setup_cmd": "cargo build --release --offline --manifest-path harness/Cargo.toml",
 "checks": [], "not_applicable": [],
 "notes": "Black-box harness against the public API of the crate; no hooks in /repo. Replay a violation with: harness/target/release/qv replay ID FILE."}
for p in props:
    i = p["id"]
    t, n = T[i]
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
      "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + t,
      "level": "fault_enumeration" if i in FAULT else "exploration", "level_note": n[0].upper()+n[1:] + "."})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
FIX = """C07|0bbfb49|a property line without a value panicked the parser
C30|44a18c4|the diff lost the last tokens, repeated tokens and differences against empty files
C08|21e32e2|malformed face lines panicked instead of being refused
C08|22c3b2b|a map ending inside an entity or brush was accepted with parts missing
C08|0c69e78|a missing worldspawn panicked, a second one was accepted
C08|f81248e|an entity without classname panicked
C07|1c012ae|a non-integer _tb_id or _tb_group panicked
C04|7f336d7|flags properties arrived as choices
C04|5f3c5cd|color255 values of the map stayed 0-255 while their defaults were 0-1
C01|07b66c3|group members appeared under every entity claiming the same _tb_id
C15|2fa9b17|a merged vertex was remapped to the first vertex at its position instead of the equal one
C20|44fb638|worldspawn layers came in hash order, different from run to run
C14|bd950fd|blacklists did not apply to textures of unknown size
C02|0cb0451|a redundant plane moved the brush centre to NaN or towards the origin
C13|90eaae8|standard tangents turned against the texture's rotation
C13|51a49a0|the Valve tangent sign ignored a negative vertical scale
C07|ca99fad|degenerate planes and non-finite corners panicked
C09|04071bd|corners of sloped faces were lost to single-precision plane intersection
C09|7d24207|corners moved to the face centre and back no longer matched their neighbours'
C25|85dc5f0|smaller mip levels were cut out with the size of the full level
C28|7437f9f|an unknown WAD magic panicked
C28|ff085e8|offsets and sizes beyond 32 bits overflowed
C28|6b5a9f7|an unreadable WAD directory entry panicked or was read past
C28|5f66feb|huge texture sizes allocated memory the file does not contain
C16|7fbe03a|corners of four or more faces appeared several times
C07|b426a6d|deeply nested groups overflowed the stack
C25|1c33309|mip levels stored apart from each other were read from behind the first one
C12|dfcdce3|a negative _phong_angle acted like its positive, one above 180 degrees wrapped
C18|399d755|a layer (or entity) with convex collision but no brushes got a node with nothing in it
C08|d19f0e5|a face line with another word in place of a bracket was accepted and misread
C11|81f897c|standard faces at exactly 45 degrees between x and y were projected along y instead of x""".split("\n")
kf = {"findings": [{"property": "C05", "id": "K1",
  "what": "a choices property whose default choice's value differs from its position: the FGD text (and so the map) states the value of the default choice, but an omitted key gives its position",
  "input": {"Choices": [[["a", {"I": 10}], ["b", {"I": 20}]], 1]}}],
  "fixed": [f"fixed: property={a} {b} {c}" for a, b, c in (l.split("|") for l in FIX)]}
p = os.path.join(here, "known_findings.json")
json.dump(kf, open(p, "w"), indent=1)
