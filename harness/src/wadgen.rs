//! WAD files: a writer from a model, an independent reader, and the crate's
//! results in plain types.
use crate::sut;
use proptest::prelude::*;
use quarchitect::wad;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq)]
pub struct Tex {
    pub name: String,
    pub w: u32,
    pub h: u32,
    pub offs: [u32; 4],
    pub mips: [Option<Vec<u8>>; 4],
    pub pal: Option<Vec<[u8; 3]>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WTex {
    pub name: String,
    pub w: u32,
    pub h: u32,
    /// unused bytes before each mip level
    pub gap: [u8; 4],
    /// in which order the levels are stored
    pub order: u8,
    pub seed: u32,
    /// whether the two padding bytes after a palette are there
    pub pad: bool,
    /// further unused bytes between the header and the mip levels
    #[serde(default)]
    pub far: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Lump {
    Tex(WTex),
    Other(Vec<u8>),
    /// the data of an earlier texture entry
    Same(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WEntry {
    pub kind: u8,
    pub name: String,
    /// bytes after the end of the name in the directory
    pub junk: u8,
    pub lump: Lump,
    /// decides where the data is stored
    pub key: u16,
    /// unused bytes before the data
    pub space: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WadDoc {
    pub wad3: bool,
    pub entries: Vec<WEntry>,
    pub dir_key: u16,
    pub dir_space: u8,
    pub end: u8,
    /// unused bytes behind the first stored block
    #[serde(default)]
    pub hole: u32,
}

pub fn px(seed: u32, level: usize, i: usize) -> u8 {
    let mut x = seed ^ (level as u32).wrapping_mul(0x9E37_79B9) ^ (i as u32).wrapping_mul(0x85EB_CA6B);
    x ^= x >> 16;
    x = x.wrapping_mul(0x7FEB_352D);
    x ^= x >> 15;
    x = x.wrapping_mul(0x846C_A68B);
    (x >> 13) as u8
}
pub fn pal(seed: u32, i: usize) -> [u8; 3] {
    [px(seed, 10, i), px(seed, 11, i), px(seed, 12, i)]
}
pub fn sizes(w: u32, h: u32) -> [usize; 4] {
    let s = w as usize * h as usize;
    [s, s / 4, s / 16, s / 64]
}
fn name16(n: &str, junk: u8) -> [u8; 16] {
    let mut out = [0u8; 16];
    for (i, b) in n.bytes().take(16).enumerate() {
        out[i] = b;
    }
    for i in n.len() + 1..16 {
        out[i] = if junk == 0 { 0 } else { junk.wrapping_add(i as u8) };
    }
    out
}
impl WTex {
    fn levels(&self) -> Vec<usize> {
        let (mut left, mut k, mut out) = (vec![0, 1, 2, 3], self.order as usize % 24, vec![]);
        for n in (1..=4).rev() {
            out.push(left.remove(k % n));
            k /= n;
        }
        out
    }
    /// The levels and where they start; a palette follows the smallest one.
    pub fn offsets(&self, wad3: bool) -> [u32; 4] {
        let s = sizes(self.w, self.h);
        let mut out = [0; 4];
        let mut at = 40 + self.far;
        for l in self.levels() {
            at += self.gap[l] as u32;
            out[l] = at;
            at += s[l] as u32;
            if l == 3 && wad3 {
                at += 2 + 768 + 2 * self.pad as u32;
            }
        }
        out
    }
    fn header(&self, wad3: bool, junk: u8) -> Vec<u8> {
        let mut b = name16(&self.name, junk).to_vec();
        for v in [self.w, self.h].iter().chain(&self.offsets(wad3)) {
            b.extend(v.to_le_bytes());
        }
        b
    }
    fn data(&self, wad3: bool) -> Vec<u8> {
        let mut b = vec![];
        let s = sizes(self.w, self.h);
        for l in self.levels() {
            b.extend(vec![0xEEu8; self.gap[l] as usize]);
            b.extend((0..s[l]).map(|i| px(self.seed, l, i)));
            if l == 3 && wad3 {
                b.extend(256u16.to_le_bytes());
                for i in 0..256 {
                    b.extend(pal(self.seed, i));
                }
                if self.pad {
                    b.extend([0, 0]);
                }
            }
        }
        b
    }
    pub fn expect(&self, wad3: bool, levels: usize) -> Tex {
        let s = sizes(self.w, self.h);
        let mip = |l: usize| {
            if l < levels {
                Some((0..s[l]).map(|i| px(self.seed, l, i)).collect())
            } else {
                None
            }
        };
        Tex {
            name: self.name.to_ascii_lowercase(),
            w: self.w,
            h: self.h,
            offs: self.offsets(wad3),
            mips: [mip(0), mip(1), mip(2), mip(3)],
            pal: if wad3 { Some((0..256).map(|i| pal(self.seed, i)).collect()) } else { None },
        }
    }
}
pub fn is_tex(kind: u8) -> bool {
    kind == b'C' || kind == b'D'
}
impl WadDoc {
    /// The texture behind a directory entry.
    pub fn tex(&self, i: usize) -> Option<&WTex> {
        match &self.entries[i].lump {
            Lump::Tex(t) => Some(t),
            Lump::Same(k) => {
                let v: Vec<usize> = (0..i).filter(|j| matches!(self.entries[*j].lump, Lump::Tex(_))).collect();
                if v.is_empty() {
                    None
                } else {
                    self.tex(v[*k as usize % v.len()])
                }
            }
            Lump::Other(_) => None,
        }
    }
    fn source(&self, i: usize) -> usize {
        match &self.entries[i].lump {
            Lump::Same(k) => {
                let v: Vec<usize> = (0..i).filter(|j| matches!(self.entries[*j].lump, Lump::Tex(_))).collect();
                if v.is_empty() {
                    i
                } else {
                    v[*k as usize % v.len()]
                }
            }
            _ => i,
        }
    }
    /// Texture entries have texture data, others do not.
    pub fn fix(mut self) -> WadDoc {
        for i in 0..self.entries.len() {
            if is_tex(self.entries[i].kind) && self.tex(i).is_none() {
                self.entries[i].kind = b'@';
            }
        }
        self
    }
    /// The file as pieces and their positions; what is between them is zero.
    pub fn pieces(&self) -> Vec<(u64, Vec<u8>)> {
        let n = self.entries.len();
        let mut blocks: Vec<(u16, usize)> = (0..n).filter(|i| self.source(*i) == *i).map(|i| (self.entries[i].key, i)).collect();
        blocks.push((self.dir_key, n));
        blocks.sort();
        let mut out: Vec<(u64, Vec<u8>)> = vec![(0, vec![0; 12])];
        // appends to the last piece
        fn add(out: &mut Vec<(u64, Vec<u8>)>, b: &[u8]) {
            out.last_mut().unwrap().1.extend(b);
        }
        fn end(out: &[(u64, Vec<u8>)]) -> u64 {
            let l = out.last().unwrap();
            l.0 + l.1.len() as u64
        }
        fn skip(out: &mut Vec<(u64, Vec<u8>)>, by: u32) {
            if by > 0 {
                let at = end(out) + by as u64;
                out.push((at, vec![]));
            }
        }
        let mut at = vec![0u64; n + 1];
        let mut len = vec![0u64; n];
        let mut dir = (0, 0);
        for (k, (_, i)) in blocks.iter().enumerate() {
            if k == 1 {
                skip(&mut out, self.hole);
            }
            if *i == n {
                add(&mut out, &vec![0xDDu8; self.dir_space as usize]);
                at[n] = end(&out);
                dir = (out.len() - 1, out.last().unwrap().1.len());
                add(&mut out, &vec![0u8; 32 * n]);
                continue;
            }
            let e = &self.entries[*i];
            add(&mut out, &vec![0xCCu8; e.space as usize]);
            at[*i] = end(&out);
            match &e.lump {
                Lump::Tex(t) => {
                    add(&mut out, &t.header(self.wad3, e.junk));
                    skip(&mut out, t.far);
                    add(&mut out, &t.data(self.wad3));
                }
                Lump::Other(b) => add(&mut out, b),
                Lump::Same(_) => {}
            }
            len[*i] = end(&out) - at[*i];
        }
        add(&mut out, &vec![0xBBu8; self.end as usize]);
        let head = &mut out[0].1;
        head[..4].copy_from_slice(if self.wad3 { b"WAD3" } else { b"WAD2" });
        head[4..8].copy_from_slice(&(n as u32).to_le_bytes());
        head[8..12].copy_from_slice(&(at[n] as u32).to_le_bytes());
        for i in 0..n {
            let e = &self.entries[i];
            let s = self.source(i);
            let mut d = vec![];
            d.extend((at[s] as u32).to_le_bytes());
            d.extend((len[s] as u32).to_le_bytes());
            d.extend((len[s] as u32).to_le_bytes());
            d.push(e.kind);
            d.push(0);
            d.extend(0u16.to_le_bytes());
            d.extend(name16(&e.name, e.junk));
            let o = dir.1 + 32 * i;
            out[dir.0].1[o..o + 32].copy_from_slice(&d);
        }
        assert!(at.iter().all(|a| *a <= u32::MAX as u64), "generator: a WAD cannot be this long");
        out
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut body = vec![];
        for (at, b) in self.pieces() {
            body.resize(at as usize, 0);
            body.extend(b);
        }
        body
    }
    /// Writes the file with holes; None when the file system cannot.
    pub fn write(&self, path: &std::path::Path) -> Option<()> {
        use std::io::{Seek, SeekFrom, Write};
        let mut f = std::fs::File::create(path).ok()?;
        for (at, b) in self.pieces() {
            f.seek(SeekFrom::Start(at)).ok()?;
            f.write_all(&b).ok()?;
        }
        Some(())
    }
    pub fn length(&self) -> u64 {
        self.pieces().last().map_or(0, |p| p.0 + p.1.len() as u64)
    }
    /// The textures a read must return.
    pub fn expect(&self, white: Option<&[String]>, levels: usize) -> Vec<Tex> {
        (0..self.entries.len())
            .filter(|i| {
                let e = &self.entries[*i];
                is_tex(e.kind) && white.map_or(true, |w| w.contains(&e.name))
            })
            .map(|i| self.tex(i).unwrap().expect(self.wad3, levels))
            .collect()
    }
}

// ---------------------------------------------------------------- strategies

pub fn tex_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z][a-z0-9_]{0,10}",
        1 => "[A-Za-z0-9_+*{~!-]{1,15}",
        1 => "[A-Z][a-zA-Z0-9]{15}",
        1 => " {0,2}[a-zA-Z.#$]{1,4}( [a-z]{1,3})?[ \\t]{0,2}",
        1 => prop::sample::select(vec!["brick", "Brick", "brick2", "wall", "a", "*water0"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
pub fn wtex() -> BoxedStrategy<WTex> {
    let dim = || prop_oneof![6 => (1u32..5).prop_map(|v| v * 8), 2 => (1u32..9).prop_map(|v| v * 16)];
    let gaps = prop_oneof![
        4 => Just([0; 4]),
        2 => any::<u8>().prop_map(|g| [g, 0, 0, 0]),
        2 => prop::array::uniform4(prop_oneof![2 => Just(0u8), 1 => 0u8..20])
    ];
    let far = prop_oneof![60 => Just(0u32), 1 => 0u32..1000, 1 => 65000u32..66000];
    (tex_name(), dim(), dim(), (gaps, prop_oneof![4 => Just(0u8), 1 => 0u8..24], far), any::<u32>(), any::<bool>())
        .prop_map(|(name, w, h, (gap, order, far), seed, pad)| WTex { name, w, h, gap, order, seed, pad, far })
        .boxed()
}
pub fn wentry(wad3: bool) -> BoxedStrategy<WEntry> {
    let small = || prop_oneof![3 => Just(0u8), 1 => 0u8..40];
    let tex = (
        prop_oneof![8 => Just(if wad3 { b'C' } else { b'D' }), 1 => Just(b'C'), 1 => Just(b'D')],
        prop_oneof![9 => wtex().prop_map(Lump::Tex), 1 => any::<u16>().prop_map(Lump::Same)],
        prop_oneof![4 => Just(None), 1 => tex_name().prop_map(Some)],
    )
        .prop_map(|(k, l, n)| {
            let own = match &l {
                Lump::Tex(t) => t.name.clone(),
                _ => "copy".into(),
            };
            (k, l, n.unwrap_or(own))
        });
    let other = (
        prop::sample::select(vec![b'@', b'B', b'E', b'F', 0u8, 0x42, b'c', b'd', 0xC3, b'A']),
        prop_oneof![
            2 => prop::collection::vec(any::<u8>(), 0..60).prop_map(Lump::Other),
            1 => wtex().prop_map(Lump::Tex)
        ],
        tex_name(),
    );
    (prop_oneof![4 => tex, 1 => other], any::<u16>(), small(), small())
        .prop_map(|((kind, lump, name), key, junk, space)| WEntry { kind, name, junk, lump, key, space })
        .boxed()
}
pub fn wad_doc(max: usize) -> BoxedStrategy<WadDoc> {
    any::<bool>()
        .prop_flat_map(move |wad3| {
            (
                prop::collection::vec(wentry(wad3), 0..=max),
                prop_oneof![2 => Just(u16::MAX), 1 => Just(0u16), 2 => any::<u16>()],
                prop_oneof![2 => Just(0u8), 1 => 0u8..40],
                prop_oneof![2 => Just(0u8), 1 => 0u8..40],
            )
                .prop_map(move |(entries, dir_key, dir_space, end)| WadDoc { wad3, entries, dir_key, dir_space, end, hole: 0 }.fix())
        })
        .boxed()
}
/// A texture entry with unremarkable layout, for fixed cases.
pub fn simple_entry(i: usize, w: u32, h: u32, wad3: bool) -> WEntry {
    WEntry {
        kind: if wad3 { b'C' } else { b'D' },
        name: format!("tex{i}"),
        junk: 0,
        lump: Lump::Tex(WTex { name: format!("tex{i}"), w, h, gap: [0; 4], order: 0, seed: i as u32 * 77 + 5, pad: true, far: 0 }),
        key: i as u16,
        space: 0,
    }
}
pub fn simple_doc(wad3: bool, n: usize, size: impl Fn(usize) -> (u32, u32)) -> WadDoc {
    WadDoc {
        wad3,
        entries: (0..n)
            .map(|i| {
                let (w, h) = size(i);
                simple_entry(i, w, h, wad3)
            })
            .collect(),
        dir_key: u16::MAX,
        dir_space: 0,
        end: 0,
        hole: 0,
    }
}

// ---------------------------------------------------------------- crate under test

fn conv(t: wad::TextureIndexed) -> Tex {
    let m = t.mip_texture;
    let d = t.mip_data;
    Tex {
        name: m.name,
        w: m.width,
        h: m.height,
        offs: [m.offset1, m.offset2, m.offset4, m.offset8],
        mips: [Some(d.mip0.0), d.mip1.map(|m| m.0), d.mip2.map(|m| m.0), d.mip3.map(|m| m.0)],
        pal: t.palette.map(|p| p.0.iter().map(|c| [c.0, c.1, c.2]).collect()),
    }
}
/// Reads on the calling thread's pool, without harness state.
pub fn read_plain(path: &str, white: Option<Vec<String>>, levels: usize) -> Result<Vec<Tex>, String> {
    wad::read_textures(path, white, levels).map(|v| v.into_iter().map(conv).collect())
}
/// Err is a panic.
pub fn read(path: &str, white: Option<&[String]>, levels: usize) -> Result<Result<Vec<Tex>, String>, String> {
    let w = white.map(|w| w.to_vec());
    sut::guard("read_textures", || read_plain(path, w, levels))
}
pub fn read_ok(path: &str, white: Option<&[String]>, levels: usize) -> Result<Vec<Tex>, String> {
    read(path, white, levels)?.map_err(|e| format!("well-formed WAD refused: {e}"))
}

// ---------------------------------------------------------------- reference reader

/// What a file that may be damaged holds; Err says what is missing.
pub fn reference(b: &[u8], white: Option<&[String]>, levels: usize) -> Result<Vec<Tex>, String> {
    let take = |at: u64, n: u64, what: &str| -> Result<&[u8], String> {
        if n == 0 {
            // an empty level needs no data, wherever it is said to be
            Ok(&b[..0])
        } else if at + n <= b.len() as u64 {
            Ok(&b[at as usize..(at + n) as usize])
        } else {
            Err(format!("{what} ends at {} of {} bytes", at + n, b.len()))
        }
    };
    let u = |s: &[u8], i: usize| u32::from_le_bytes(s[i..i + 4].try_into().unwrap());
    let name = |s: &[u8]| s.iter().take_while(|c| **c != 0).map(|c| *c as char).collect::<String>();
    let h = take(0, 12, "header")?;
    let wad3 = match &h[..4] {
        b"WAD2" => false,
        b"WAD3" => true,
        m => return Err(format!("magic {m:?}")),
    };
    let (n, dir) = (u(h, 4) as u64, u(h, 8) as u64);
    take(dir, n * 32, "directory")?;
    let mut out = vec![];
    for i in 0..n {
        let e = take(dir + 32 * i, 32, "directory entry")?;
        if !is_tex(e[12]) || white.map_or(false, |w| !w.contains(&name(&e[16..32]))) {
            continue;
        }
        let at = u(e, 0) as u64;
        let m = take(at, 40, "texture header")?;
        let (w, hh) = (u(m, 16), u(m, 20));
        let offs = [u(m, 24), u(m, 28), u(m, 32), u(m, 36)];
        let s0 = w as u64 * hh as u64;
        let s = [s0, s0 / 4, s0 / 4 / 4, s0 / 4 / 4 / 4];
        let mut mips = [None, None, None, None];
        for l in 0..levels {
            mips[l] = Some(take(at + offs[l] as u64, s[l], "mip level")?.to_vec());
        }
        let pal = if wad3 {
            let p = take(at + offs[3] as u64 + s[3] + 2, 768, "palette")?;
            Some(p.chunks(3).map(|c| [c[0], c[1], c[2]]).collect())
        } else {
            None
        };
        out.push(Tex { name: name(&m[..16]).to_lowercase(), w, h: hh, offs, mips, pal });
    }
    Ok(out)
}
pub fn differ(want: &[Tex], got: &[Tex]) -> Option<String> {
    if want == got {
        return None;
    }
    if want.len() != got.len() {
        let n = |v: &[Tex]| v.iter().map(|t| t.name.clone()).collect::<Vec<_>>();
        return Some(format!("{} textures {:?}, expected {} {:?}", got.len(), n(got), want.len(), n(want)));
    }
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        if (&a.name, a.w, a.h, a.offs) != (&b.name, b.w, b.h, b.offs) {
            return Some(format!(
                "texture {i}: header {:?} {}x{} {:?}, expected {:?} {}x{} {:?}",
                b.name, b.w, b.h, b.offs, a.name, a.w, a.h, a.offs
            ));
        }
        for l in 0..4 {
            match (&a.mips[l], &b.mips[l]) {
                (Some(x), Some(y)) if x != y => {
                    let at = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
                    return Some(format!(
                        "texture {i} ({:?}, {}x{}): mip level {l} has {} pixels of {}, first difference at {at}",
                        a.name, a.w, a.h, y.len(), x.len()
                    ));
                }
                (Some(_), None) | (None, Some(_)) => {
                    return Some(format!("texture {i} ({:?}): mip level {l} present {}", a.name, b.mips[l].is_some()))
                }
                _ => {}
            }
        }
        if a.pal != b.pal {
            return Some(format!(
                "texture {i} ({:?}): palette {:?}…, expected {:?}…",
                a.name,
                b.pal.as_ref().map(|p| &p[..2]),
                a.pal.as_ref().map(|p| &p[..2])
            ));
        }
    }
    None
}
