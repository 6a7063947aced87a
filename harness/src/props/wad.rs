//! C25-C29 WAD reading.
use crate::runner::{Check, Obs, Prop};
use crate::sut;
use crate::wadgen::*;
use proptest::prelude::*;
use quarchitect::wad;
use serde::{Deserialize, Serialize};

fn wad_file(b: &[u8]) -> String {
    sut::scratch_file("t.wad", b)
}
fn observe(d: &WadDoc, obs: &mut Obs) {
    obs.label(if d.wad3 { "WAD3" } else { "WAD2" });
    let tex = d.entries.iter().filter(|e| is_tex(e.kind)).count();
    obs.label(match tex {
        0 => "no textures",
        1 => "one texture",
        2..=5 => "2-5 textures",
        _ => "6 or more textures",
    });
    obs.label_if(tex < d.entries.len(), "other lumps");
    let keys: Vec<u16> = d.entries.iter().map(|e| e.key).collect();
    obs.label_if(keys.windows(2).any(|w| w[0] > w[1]), "stored in another order");
    obs.label_if(d.entries.iter().any(|e| e.key > d.dir_key), "directory before data");
    obs.label_if(d.entries.iter().any(|e| matches!(e.lump, Lump::Same(_)) && is_tex(e.kind)), "entries sharing data");
    let texs = || d.entries.iter().filter_map(|e| if let Lump::Tex(t) = &e.lump { Some(t) } else { None });
    obs.label_if(texs().any(|t| t.gap[1..] != [0; 3]), "space between mip levels");
    obs.label_if(texs().any(|t| t.order % 24 > 0), "mip levels in another order");
    obs.label_if(
        (0..d.entries.len()).any(|i| d.tex(i).map_or(false, |t| t.name != d.entries[i].name)),
        "directory name differs from header name",
    );
}
fn sample(d: &WadDoc) -> Option<String> {
    Some(format!(
        "wad3 {} dir_key {} {:?}",
        d.wad3,
        d.dir_key,
        d.entries.iter().map(|e| (e.kind as char, &e.name, &e.lump)).take(5).collect::<Vec<_>>()
    ))
}
pub fn big_docs() -> Vec<WadDoc> {
    let mut out = vec![];
    for wad3 in [false, true] {
        out.push(simple_doc(wad3, 300, |i| (8 + 8 * (i as u32 % 3), 8 + 8 * (i as u32 % 5))));
        out.push(simple_doc(wad3, 3, |i| [(256, 256), (512, 16), (16, 1024)][i]));
        out.push(simple_doc(wad3, 5, |i| [(264, 8), (8, 264), (512, 512), (1024, 128), (8, 8)][i]));
        out.push(simple_doc(wad3, 4, |i| [(2048, 8), (8, 4096), (1032, 1040), (16, 8)][i]));
        out.push(simple_doc(wad3, 0, |_| (8, 8)));
        // mixed sizes stored backwards, directory first
        let mut d = simple_doc(wad3, 40, |i| (8 * (1 + i as u32 % 7), 8 * (1 + i as u32 % 4)));
        for (i, e) in d.entries.iter_mut().enumerate() {
            e.key = 1000 - i as u16;
        }
        d.dir_key = 0;
        out.push(d);
    }
    out
}

/// Files with more entries than 16 bits count and with data behind the
/// positions that 24 bits, 31 bits and (for mip levels) 32 bits reach.
fn far_docs(wad3: bool) -> Vec<WadDoc> {
    let mut out = vec![];
    let mut many = simple_doc(wad3, 3, |i| [(16, 8), (8, 16), (24, 24)][i]);
    let last = many.entries.split_off(1);
    for i in 0..70_000u32 {
        many.entries.push(WEntry {
            kind: b'@',
            name: format!("o{i}"),
            junk: 0,
            lump: Lump::Other(vec![]),
            key: 9,
            space: 0,
        });
    }
    many.entries.extend(last);
    out.push(many);
    for (hole, far, dir_first) in [
        ((1 << 24) - 100, 0, false),
        ((1u32 << 31) + 100, 0, true),
        (3 << 30, (3 << 30) + 7, true),
        ((1 << 31) - 60, 1 << 16, true),
    ] {
        // (few of them, since a reader may well load whole files into memory)
        if !wad3 && (far > 0 || hole == (1 << 31) - 60) {
            continue;
        }
        let mut d = simple_doc(wad3, 3, |i| [(16, 8), (8, 16), (24, 24)][i]);
        d.hole = hole;
        if dir_first {
            d.dir_key = 0;
        }
        if let Lump::Tex(t) = &mut d.entries[2].lump {
            t.far = far;
        }
        out.push(d);
    }
    out
}

pub struct C25;
impl Prop for C25 {
    type Case = (WadDoc, usize);
    const ID: &'static str = "C25";
    const CASES: (u64, u64) = (240_000, 3_600_000);
    const RULE: &'static str = "WAD2 and WAD3 files of 0-12 entries (textures of 8-128 pixels a side, names of any case and up to 16 characters, other lumps, entries sharing data, data in any order with gaps, directory anywhere), plus fixed files of 300 and 70 000 entries, textures of 512 pixels, and (sparse) files of up to 6 GB, read with 1-4 levels and compared with the model; non-trivial: two or more textures";
    const ASSUME: &'static [&'static str] = &["texture entries have type C or D, a palette follows the smallest mip level, sizes are multiples of 8, names are ASCII"];
    fn strategy(_: bool) -> BoxedStrategy<(WadDoc, usize)> {
        (wad_doc(12), 1usize..5, prop_oneof![100 => Just(0u32), 1 => 65000u32..66000, 1 => 16_776_000u32..16_778_000])
            .prop_map(|(mut d, n, hole)| {
                d.hole = hole;
                (d, n)
            })
            .boxed()
    }
    fn fixed(_: bool) -> Vec<(WadDoc, usize)> {
        let far = [false, true].into_iter().flat_map(far_docs).map(|d| (d, 4));
        big_docs().into_iter().flat_map(|d| [(d.clone(), 4), (d, 1)]).chain(far).collect()
    }
    fn check((d, levels): &(WadDoc, usize), obs: &mut Obs) -> Check {
        observe(d, obs);
        obs.sample = sample(d);
        let want = d.expect(None, *levels);
        obs.nontrivial(want.len() > 1);
        let len = d.length();
        let path = sut::scratch().join("t.wad");
        if d.write(&path).is_none() {
            obs.label("file too long for this file system: not checked");
            return Ok(());
        }
        obs.label_if(d.entries.len() > 65535, "more than 65535 entries");
        obs.label_if(len > 1 << 16 && len <= 1 << 24, "file longer than 2^16");
        obs.label_if(len > 1 << 24, "file longer than 2^24");
        obs.label_if(len > 1 << 31, "file longer than 2^31");
        obs.label_if(len > 1 << 32, "file longer than 2^32");
        let got = read_ok(path.to_str().unwrap(), None, *levels)?;
        match differ(&want, &got) {
            None => Ok(()),
            Some(m) => Err(m),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Listed {
    doc: WadDoc,
    white: Vec<String>,
}
pub struct C26;
impl Prop for C26 {
    type Case = Listed;
    const ID: &'static str = "C26";
    const CASES: (u64, u64) = (128_000, 1_920_000);
    const RULE: &'static str = "WAD files as C25 with whitelists mixing directory names (whole, prefixes, other case, of other lumps, doubled), absent names and the empty name; every mip count with and without the whitelist is compared with the corresponding part of the unrestricted read and with the model; non-trivial: the whitelist keeps some textures and drops others";
    fn strategy(_: bool) -> BoxedStrategy<Listed> {
        (wad_doc(10), prop::collection::vec((any::<u16>(), 0u8..10, tex_name()), 0..8))
            .prop_map(|(doc, picks)| {
                let white = picks
                    .into_iter()
                    .map(|(i, how, other)| {
                        if doc.entries.is_empty() {
                            return other;
                        }
                        let i = i as usize % doc.entries.len();
                        let n = doc.entries[i].name.clone();
                        match how {
                            0..=4 => n,
                            5 => n.to_uppercase(),
                            6 => n[..n.len() / 2].to_string(),
                            7 => n + "x",
                            8 => doc.tex(i).map_or(String::new(), |t| t.name.clone()),
                            _ => other,
                        }
                    })
                    .collect();
                Listed { doc, white }
            })
            .boxed()
    }
    fn fixed(_: bool) -> Vec<Listed> {
        let mut out = vec![];
        for wad3 in [false, true] {
            let doc = simple_doc(wad3, 60, |i| (8 + 8 * (i as u32 % 3), 16));
            for white in [
                (0..60).step_by(2).map(|i| format!("tex{i}")).collect(),
                vec!["tex1".to_string()],
                (0..60).rev().map(|i| format!("tex{i}")).collect(),
                vec![],
                vec!["tex".to_string(), "TEX5".into()],
            ] {
                out.push(Listed { doc: doc.clone(), white });
            }
            let doc = simple_doc(wad3, 1100, |_| (8, 8));
            let white = (0..1100).filter(|i| i % 5 > 0).map(|i| format!("tex{i}")).collect();
            out.push(Listed { doc, white });
        }
        out
    }
    fn check(c: &Listed, obs: &mut Obs) -> Check {
        let d = &c.doc;
        observe(d, obs);
        obs.sample = sample(d).map(|s| format!("whitelist {:?}, {s}", c.white));
        let path = wad_file(&d.bytes());
        let full = read_ok(&path, None, 4)?;
        if let Some(m) = differ(&d.expect(None, 4), &full) {
            return Err(format!("unrestricted read: {m}"));
        }
        let names: Vec<&String> = d.entries.iter().filter(|e| is_tex(e.kind)).map(|e| &e.name).collect();
        let kept = names.iter().filter(|n| c.white.contains(n)).count();
        obs.nontrivial(kept > 0 && kept < names.len());
        obs.label(if kept == 0 {
            "whitelist keeps nothing"
        } else if kept == names.len() {
            "whitelist keeps everything"
        } else {
            "whitelist keeps some"
        });
        for levels in 1..=4 {
            for white in [None, Some(c.white.as_slice())] {
                let want: Vec<Tex> = names
                    .iter()
                    .zip(&full)
                    .filter(|(n, _)| white.map_or(true, |w| w.contains(n)))
                    .map(|(_, t)| {
                        let mut t = t.clone();
                        for l in levels..4 {
                            t.mips[l] = None;
                        }
                        t
                    })
                    .collect();
                let got = read_ok(&path, white, levels)?;
                if let Some(m) = differ(&want, &got) {
                    return Err(format!("{levels} levels, whitelist {white:?}: {m}"));
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rgb {
    Convert {
        w: u32,
        h: u32,
        levels: usize,
        seed: u32,
        own: Option<u32>,
        given: Option<u32>,
    },
    File {
        wad: WadDoc,
        given: Option<u32>,
        levels: usize,
    },
    Palette {
        len: u32,
        seed: u32,
        kind: u8,
    },
}
fn sut_palette(seed: u32) -> wad::palette::Palette {
    let mut b = vec![];
    for i in 0..256 {
        b.extend(pal(seed, i));
    }
    match wad::palette::parser(&b) {
        Ok((_, p)) => p,
        Err(_) => panic!("palette parser refused 768 bytes"),
    }
}
fn check_rgb(t: wad::TextureIndexed, want: &Tex, given: Option<u32>) -> Check {
    let palette: Option<Vec<[u8; 3]>> = match (&want.pal, given) {
        (Some(p), _) => Some(p.clone()),
        (None, Some(s)) => Some((0..256).map(|i| pal(s, i)).collect()),
        _ => None,
    };
    let g = given.map(sut_palette);
    let r = sut::guard("into_rgb", || t.into_rgb(g))?;
    match (r, palette) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(_)) => Err(format!("conversion with a palette failed: {e}")),
        (Ok(_), None) => Err("conversion without any palette succeeded".into()),
        (Ok(o), Some(p)) => {
            let m = &o.mip_texture;
            if (m.name.as_str(), m.width, m.height, [m.offset1, m.offset2, m.offset4, m.offset8])
                != (want.name.as_str(), want.w, want.h, want.offs)
            {
                return Err(format!("header changed to {m:?}"));
            }
            let got = [Some(&o.mip_data.mip0), o.mip_data.mip1.as_ref(), o.mip_data.mip2.as_ref(), o.mip_data.mip3.as_ref()];
            for l in 0..4 {
                match (&want.mips[l], got[l]) {
                    (None, None) => {}
                    (Some(x), Some(y)) => {
                        if x.len() != y.len() {
                            return Err(format!("level {l} has {} colours for {} pixels", y.len(), x.len()));
                        }
                        for (i, (a, b)) in x.iter().zip(y).enumerate() {
                            if p[*a as usize] != [b.0, b.1, b.2] {
                                return Err(format!("level {l} pixel {i}: index {a} became {b:?}, palette has {:?}", p[*a as usize]));
                            }
                        }
                    }
                    (a, b) => return Err(format!("level {l}: present before {}, after {}", a.is_some(), b.is_some())),
                }
            }
            Ok(())
        }
    }
}
pub struct C27;
impl Prop for C27 {
    type Case = Rgb;
    const ID: &'static str = "C27";
    const CASES: (u64, u64) = (800_000, 12_000_000);
    const RULE: &'static str = "textures built directly (1-4 levels, any indices) and textures read from WAD files, each with and without own and supplied palettes, converted and compared pixel by pixel; palette files of 0-2000 bytes, missing or a directory; non-trivial: a conversion with a palette, or a palette file";
    fn strategy(_: bool) -> BoxedStrategy<Rgb> {
        let opt = || prop_oneof![Just(None), any::<u32>().prop_map(Some)];
        prop_oneof![
            4 => ((1u32..20), (1u32..20), 1usize..5, any::<u32>(), opt(), opt())
                .prop_map(|(w, h, levels, seed, own, given)| Rgb::Convert { w: w * 8, h: h * 8, levels, seed, own, given }),
            1 => (wad_doc(4), opt(), 1usize..5).prop_map(|(wad, given, levels)| Rgb::File { wad, given, levels }),
            2 => (prop_oneof![2 => 0u32..2000, 2 => 760u32..776, 1 => Just(768u32)], any::<u32>(), prop_oneof![9 => Just(0u8), 1 => 1u8..3])
                .prop_map(|(len, seed, kind)| Rgb::Palette { len, seed, kind }),
        ]
        .boxed()
    }
    fn fixed(_: bool) -> Vec<Rgb> {
        (760..=776).map(|len| Rgb::Palette { len, seed: 3, kind: 0 }).collect()
    }
    fn check(c: &Rgb, obs: &mut Obs) -> Check {
        match c {
            Rgb::Convert { w, h, levels, seed, own, given } => {
                obs.label(&format!("own palette {}, supplied {}", own.is_some(), given.is_some()));
                obs.nontrivial(own.is_some() || given.is_some());
                let s = sizes(*w, *h);
                let m = |l: usize| -> Option<Vec<u8>> {
                    if l < *levels {
                        Some((0..s[l]).map(|i| px(*seed, l, i)).collect())
                    } else {
                        None
                    }
                };
                let want = Tex {
                    name: format!("t{seed}"),
                    w: *w,
                    h: *h,
                    offs: [40, *seed, 7, *w],
                    mips: [m(0), m(1), m(2), m(3)],
                    pal: own.map(|o| (0..256).map(|i| pal(o, i)).collect()),
                };
                let ml = |l: usize| want.mips[l].clone().map(wad::mip_level::MipLevel);
                let t = wad::TextureIndexed::new(
                    wad::MipTexture {
                        name: want.name.clone(),
                        width: *w,
                        height: *h,
                        offset1: want.offs[0],
                        offset2: want.offs[1],
                        offset4: want.offs[2],
                        offset8: want.offs[3],
                    },
                    wad::MipDataIndexed { mip0: ml(0).unwrap(), mip1: ml(1), mip2: ml(2), mip3: ml(3) },
                    own.map(sut_palette),
                );
                check_rgb(t, &want, *given)
            }
            Rgb::File { wad: d, given, levels } => {
                let want = d.expect(None, *levels);
                obs.label("textures from a file");
                obs.nontrivial(!want.is_empty());
                let path = wad_file(&d.bytes());
                let got = sut::guard("read_textures", || wad::read_textures(&path, None, *levels))?
                    .map_err(|e| format!("well-formed WAD refused: {e}"))?;
                if got.len() != want.len() {
                    return Err(format!("{} textures, expected {}", got.len(), want.len()));
                }
                for (g, w) in got.into_iter().zip(&want) {
                    check_rgb(g, w, *given).map_err(|m| format!("texture {:?}: {m}", w.name))?;
                }
                Ok(())
            }
            Rgb::Palette { len, seed, kind } => {
                obs.nontrivial(true);
                obs.label(match (kind, len) {
                    (0, 0..=767) => "short palette file",
                    (0, 768) => "palette file of 768 bytes",
                    (0, _) => "long palette file",
                    (1, _) => "missing palette file",
                    _ => "directory as palette file",
                });
                let bytes: Vec<u8> = (0..*len as usize).map(|i| px(*seed, 20, i)).collect();
                let path = match kind {
                    0 => sut::scratch_file("p.lmp", &bytes),
                    1 => sut::scratch().join("no-such-file").to_str().unwrap().to_string(),
                    _ => sut::scratch().to_str().unwrap().to_string(),
                };
                let r = sut::guard("read_palette", || wad::palette::read_palette(&path))?;
                match r {
                    Err(e) => {
                        if *kind == 0 && *len >= 768 {
                            return Err(format!("palette file of {len} bytes refused: {e}"));
                        }
                    }
                    Ok(p) => {
                        if *kind != 0 || *len < 768 {
                            return Err(format!("palette read from {len} bytes (kind {kind})"));
                        }
                        for i in 0..256 {
                            let c = p.0[i];
                            if [c.0, c.1, c.2] != [bytes[3 * i], bytes[3 * i + 1], bytes[3 * i + 2]] {
                                return Err(format!("palette entry {i} is {c:?}, the file has {:?}", &bytes[3 * i..3 * i + 3]));
                            }
                        }
                    }
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damaged {
    bytes: Vec<u8>,
    levels: usize,
    white: Option<Vec<String>>,
    how: String,
}
#[derive(Clone, Debug)]
enum Harm {
    Cut(u32),
    Field(u16, u8, u32),
    Byte(u32, u8),
    Magic(u8),
    Count(u32),
    Dir(u32),
    Insert(u32, u8),
    Size(u16, u32, u32),
}
fn odd_u32() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => prop::sample::select(vec![0u32, 1, 2, 3, 7, 39, 40, 41, 255, 256, 4096, 65535, 65536, 65537, 1 << 20, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX, u32::MAX - 1, u32::MAX - 31, u32::MAX - 39]),
        1 => any::<u32>(),
        1 => 0u32..2000,
    ]
    .boxed()
}
fn harm() -> BoxedStrategy<Harm> {
    prop_oneof![
        3 => any::<u32>().prop_map(Harm::Cut),
        6 => (any::<u16>(), any::<u8>(), odd_u32()).prop_map(|(a, b, c)| Harm::Field(a, b, c)),
        2 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Harm::Byte(a, b)),
        1 => any::<u8>().prop_map(Harm::Magic),
        1 => odd_u32().prop_map(Harm::Count),
        1 => odd_u32().prop_map(Harm::Dir),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Harm::Insert(a, b)),
        2 => (any::<u16>(), odd_u32(), odd_u32()).prop_map(|(a, b, c)| Harm::Size(a, b, c)),
    ]
    .boxed()
}
fn u32_at(b: &[u8], i: usize) -> Option<u32> {
    b.get(i..i + 4).map(|s| u32::from_le_bytes(s.try_into().unwrap()))
}
fn put(b: &mut [u8], i: usize, v: u32) {
    if let Some(s) = b.get_mut(i..i + 4) {
        s.copy_from_slice(&v.to_le_bytes());
    }
}
fn hurt(b: &mut Vec<u8>, h: &Harm) {
    let n = b.len();
    if n == 0 {
        return;
    }
    let entry = |b: &[u8], e: u16| -> Option<usize> {
        let (c, d) = (u32_at(b, 4)?, u32_at(b, 8)?);
        if c == 0 {
            return None;
        }
        Some(d as usize + 32 * (e as usize % (c as usize).min(64)))
    };
    match h {
        Harm::Cut(k) => b.truncate(*k as usize % n),
        Harm::Byte(i, v) => {
            let i = *i as usize % n;
            b[i] = *v
        }
        Harm::Insert(i, v) => b.insert(*i as usize % n, *v),
        Harm::Magic(k) => {
            let m = [b"WAD1", b"WAD4", b"wad2", b"wad3", b"PACK", b"\0\0\0\0", b"2DAW", b"WAD "][*k as usize % 8];
            let k = n.min(4);
            b[..k].copy_from_slice(&m[..k]);
        }
        Harm::Count(v) => put(b, 4, *v),
        Harm::Dir(v) => put(b, 8, *v),
        Harm::Field(e, f, v) => {
            if let Some(o) = entry(b, *e) {
                let data = u32_at(b, o).unwrap_or(0) as usize;
                match f % 9 {
                    0 => put(b, o, *v),
                    1 => put(b, o + 4, *v),
                    2 => put(b, o + 8, *v),
                    3 => put(b, o + 12, *v),
                    k => put(b, data.saturating_add(16 + 4 * (k as usize - 4)), *v),
                }
            }
        }
        Harm::Size(e, w, h) => {
            if let Some(o) = entry(b, *e) {
                let data = u32_at(b, o).unwrap_or(0) as usize;
                put(b, data.saturating_add(16), *w);
                put(b, data.saturating_add(20), *h);
            }
        }
    }
}
pub struct C28;
impl Prop for C28 {
    type Case = Damaged;
    const ID: &'static str = "C28";
    const LEVEL: &'static str = "fault_enumeration";
    const CASES: (u64, u64) = (400_000, 6_000_000);
    const RULE: &'static str = "WAD files of 0-6 entries with 1-4 harms (cut anywhere, header, directory or texture header fields set to extreme values, bytes changed or inserted, wrong magic), random bytes behind a right magic, and small files cut at every byte and with every 32-bit field set to each of 12 extremes; no panic, no more than 64 MB allocated, and an error whenever an independent reader finds the magic wrong or needed data missing; non-trivial: the file differs from a well-formed one";
    const ASSUME: &'static [&'static str] = &["the harness builds the crate with overflow checks and debug assertions; files are below 200 KB"];
    fn strategy(_: bool) -> BoxedStrategy<Damaged> {
        let white = || prop_oneof![3 => Just(None), 1 => prop::collection::vec(prop::sample::select(vec!["brick".to_string(), "wall".into(), "a".into()]), 0..3).prop_map(Some)];
        prop_oneof![
            9 => (wad_doc(6), prop::collection::vec(harm(), 1..5), 1usize..5, white()).prop_map(|(d, hs, levels, white)| {
                let mut bytes = d.bytes();
                for h in &hs {
                    hurt(&mut bytes, h);
                }
                let how = if hs.len() == 1 { format!("{:?}", hs[0]).split('(').next().unwrap().to_string() } else { "several".into() };
                Damaged { bytes, levels, white, how }
            }),
            1 => (prop::collection::vec(any::<u8>(), 0..300), any::<bool>(), 0u32..20, 0u32..100, 1usize..5).prop_map(|(mut bytes, m, c, d, levels)| {
                if bytes.len() >= 12 {
                    bytes[..4].copy_from_slice(if m { b"WAD2" } else { b"WAD3" });
                    put(&mut bytes, 4, c);
                    put(&mut bytes, 8, d);
                    // texture types
                    for i in (0..c as usize).take(9) {
                        if let Some(b) = bytes.get_mut(d as usize + 32 * i + 12) {
                            *b = b'C' + (i % 2) as u8;
                        }
                    }
                }
                Damaged { bytes, levels, white: None, how: "random".into() }
            }),
        ]
        .boxed()
    }
    fn fixed(thorough: bool) -> Vec<Damaged> {
        let mut out = vec![];
        for wad3 in [false, true] {
            let mut d = simple_doc(wad3, 2, |i| [(8, 8), (16, 8)][i]);
            for dir_key in [u16::MAX, 0] {
                d.dir_key = dir_key;
                let b = d.bytes();
                for levels in [1, 4] {
                    for k in 0..=b.len() {
                        if thorough || !wad3 || k < 60 || k % 3 == 0 || k + 160 > b.len() {
                            out.push(Damaged { bytes: b[..k].to_vec(), levels, white: None, how: "every cut".into() });
                        }
                    }
                    let dir = u32_at(&b, 8).unwrap() as usize;
                    let mut fields = vec![0, 4, 8];
                    for e in 0..2 {
                        fields.extend((0..8).map(|i| dir + 32 * e + 4 * i));
                        let at = u32_at(&b, dir + 32 * e).unwrap() as usize;
                        fields.extend((0..10).map(|i| at + 4 * i));
                    }
                    for f in fields {
                        for v in [0, 1, 2, 40, 256, 65535, 65536, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX - 31, u32::MAX] {
                            let mut b = b.clone();
                            put(&mut b, f, v);
                            out.push(Damaged { bytes: b, levels, white: None, how: "every field".into() });
                        }
                    }
                    // sizes whose product does or does not fit
                    for (w, h) in [(65535u32, 65537u32), (65536, 65536), (65535, 65535), (1 << 31, 2), (u32::MAX, 1), (1, u32::MAX), (u32::MAX, u32::MAX), (1 << 20, 1 << 11), (0, 16), (16, 0)] {
                        for e in 0..2 {
                            let mut b = b.clone();
                            let at = u32_at(&b, dir + 32 * e).unwrap() as usize;
                            put(&mut b, at + 16, w);
                            put(&mut b, at + 20, h);
                            out.push(Damaged { bytes: b, levels, white: None, how: "sizes".into() });
                        }
                    }
                }
            }
        }
        out
    }
    fn check(c: &Damaged, obs: &mut Obs) -> Check {
        obs.sample = Some(format!("{}, {} levels, {} bytes: {:?}…", c.how, c.levels, c.bytes.len(), &c.bytes[..c.bytes.len().min(120)]));
        obs.nontrivial(true);
        let white = c.white.as_deref();
        let want = reference(&c.bytes, white, c.levels);
        let path = wad_file(&c.bytes);
        let base = crate::alloc::start();
        let got = read(&path, white, c.levels)?;
        let peak = crate::alloc::peak(base);
        obs.label(&format!(
            "{}: {} by the reader, {} by the reference",
            c.how,
            if got.is_ok() { "read" } else { "refused" },
            if want.is_ok() { "complete" } else { "damaged" }
        ));
        if peak > 64 << 20 {
            return Err(format!("{peak} bytes allocated for a file of {} bytes", c.bytes.len()));
        }
        if let (Ok(g), Err(e)) = (&got, &want) {
            return Err(format!("{} textures returned although {e}", g.len()));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads {
    doc: WadDoc,
    /// damage: texture entry and kind
    harm: Option<(u16, u8)>,
    levels: usize,
    pools: Vec<usize>,
    readers: usize,
    /// another file, read at the same time
    second: WadDoc,
}
pub struct C29;
impl Prop for C29 {
    type Case = Threads;
    const ID: &'static str = "C29";
    const CASES: (u64, u64) = (80_000, 1_200_000);
    const RULE: &'static str = "WAD files of 0-16 entries of unequal sizes, plus files of 300, valid or with one damaged texture, read in thread pools of 1, 2, 3, 5, 8 and 16 workers and by 2-5 readers at once (of the same file, other levels, part of it, and another file); all results are equal to the model's (or all are errors); non-trivial: four or more textures";
    fn strategy(_: bool) -> BoxedStrategy<Threads> {
        (
            wad_doc(16),
            prop_oneof![3 => Just(None), 1 => (any::<u16>(), any::<u8>()).prop_map(Some)],
            1usize..5,
            prop::collection::vec(prop::sample::select(vec![1usize, 2, 3, 5, 8, 16]), 1..4),
            2usize..6,
            wad_doc(6),
        )
            .prop_map(|(doc, harm, levels, pools, readers, second)| Threads { doc, harm, levels, pools, readers, second })
            .boxed()
    }
    fn fixed(_: bool) -> Vec<Threads> {
        let mut out = vec![];
        for d in big_docs() {
            let mut second = d.clone();
            second.entries.reverse();
            second.entries.truncate(60);
            out.push(Threads { doc: d.clone(), harm: None, levels: 4, pools: vec![1, 2, 3, 5, 8, 16, 32], readers: 4, second: second.clone() });
            out.push(Threads { doc: d, harm: Some((211, 0)), levels: 2, pools: vec![1, 4, 8], readers: 3, second });
        }
        out
    }
    fn check(c: &Threads, obs: &mut Obs) -> Check {
        obs.sample = sample(&c.doc).map(|s| format!("pools {:?}, {} readers, harm {:?}: {s}", c.pools, c.readers, c.harm));
        let mut bytes = c.doc.bytes();
        let mut want = Some(c.doc.expect(None, c.levels));
        obs.nontrivial(want.as_ref().unwrap().len() > 3);
        if let Some((e, k)) = c.harm {
            let tex: Vec<usize> = (0..c.doc.entries.len()).filter(|i| is_tex(c.doc.entries[*i].kind)).collect();
            if !tex.is_empty() {
                let i = tex[e as usize % tex.len()];
                let o = u32_at(&bytes, 8).unwrap() as usize + 32 * i;
                if k % 2 == 0 {
                    // pixel data beyond the end of the file
                    let at = u32_at(&bytes, o).unwrap() as usize;
                    put(&mut bytes, at + 24, 0x7fff_0000);
                } else {
                    put(&mut bytes, o, 0x7fff_0000);
                }
                want = None;
            }
        }
        obs.label(if want.is_some() { "valid" } else { "damaged" });
        let path = wad_file(&bytes);
        let judge = |r: Result<Vec<Tex>, String>, want: &Option<Vec<Tex>>, how: String| -> Check {
            match (r, want) {
                (Ok(t), Some(w)) => match differ(w, &t) {
                    None => Ok(()),
                    Some(m) => Err(format!("{how}: {m}")),
                },
                (Err(e), Some(_)) => Err(format!("{how}: refused: {e}")),
                (Ok(t), None) => Err(format!("{how}: {} textures from a damaged file", t.len())),
                (Err(_), None) => Ok(()),
            }
        };
        for n in &c.pools {
            obs.label(&format!("pool of {n}"));
            let pool = pool(*n);
            let r = sut::guard("read_textures", || pool.install(|| read_plain(&path, None, c.levels)))?;
            judge(r, &want, format!("pool of {n}"))?;
        }
        // at once: the same file, with other levels, a part of it, and another file
        let path2 = sut::scratch_file("u.wad", &c.second.bytes());
        let jobs: Vec<(&String, Option<Vec<String>>, usize, Option<Vec<Tex>>)> = (0..c.readers)
            .map(|i| {
                let other = c.levels % 4 + 1;
                match i {
                    2 => (&path2, None, c.levels, Some(c.second.expect(None, c.levels))),
                    3 => (&path, None, other, want.as_ref().map(|_| c.doc.expect(None, other))),
                    4 if want.is_some() => {
                        let names: Vec<String> = c.doc.entries.iter().step_by(2).map(|e| e.name.clone()).collect();
                        let w = c.doc.expect(Some(&names), c.levels);
                        (&path, Some(names), c.levels, Some(w))
                    }
                    _ => (&path, None, c.levels, want.clone()),
                }
            })
            .collect();
        let rs: Vec<_> = std::thread::scope(|s| {
            let h: Vec<_> = jobs
                .iter()
                .map(|(path, white, levels, _)| s.spawn(move || read_plain(path, white.clone(), *levels)))
                .collect();
            h.into_iter().map(|h| h.join()).collect()
        });
        for (i, (r, job)) in rs.into_iter().zip(&jobs).enumerate() {
            match r {
                Ok(r) => judge(r, &job.3, format!("reader {i} of {} at once", c.readers))?,
                Err(_) => return Err(format!("reader {i} of {} at once panicked", c.readers)),
            }
        }
        Ok(())
    }
}
/// Thread pools, built once per size.
fn pool(n: usize) -> &'static rayon::ThreadPool {
    use std::collections::BTreeMap;
    use std::sync::{Mutex, OnceLock};
    static POOLS: OnceLock<Mutex<BTreeMap<usize, &'static rayon::ThreadPool>>> = OnceLock::new();
    let mut m = POOLS.get_or_init(Default::default).lock().unwrap();
    m.entry(n).or_insert_with(|| {
        for _ in 0..100 {
            if let Ok(p) = rayon::ThreadPoolBuilder::new().num_threads(n).build() {
                return Box::leak(Box::new(p));
            }
            std::thread::sleep(std::time::Duration::from_millis(100));
        }
        // no threads to be had: an error of the run, not of the code under test
        std::process::exit(3)
    })
}
